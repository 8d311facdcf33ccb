pub mod advanced {
    use cfg::{Cfg, Symbol};
    use std::collections::BTreeMap;

    /// Which terminals a character may stand for. `compute` must run before `get`.
    #[derive(Clone, Debug, Default)]
    pub struct LexerMap {
        pub ranges: Vec<(char, char, Symbol)>,
        computed: Option<BTreeMap<char, Vec<Symbol>>>,
    }

    impl LexerMap {
        pub fn compute(&mut self) {
            let mut map: BTreeMap<char, Vec<Symbol>> = BTreeMap::new();
            for &(lo, hi, sym) in &self.ranges {
                for c in lo..=hi {
                    let v = map.entry(c).or_default();
                    if !v.contains(&sym) {
                        v.push(sym);
                    }
                }
            }
            self.computed = Some(map);
        }
        pub fn get(&self, ch: char) -> &[Symbol] {
            self.computed
                .as_ref()
                .expect("lexer map not computed")
                .get(&ch)
                .map_or(&[][..], |v| &v[..])
        }
    }

    #[derive(Clone, Debug, Default)]
    pub struct AdvancedGrammar {
        pub cfg: Cfg,
        pub lexer_map: LexerMap,
    }
}
