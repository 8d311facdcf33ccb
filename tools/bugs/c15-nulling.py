property = "C15"
kind = "core"
needs = "a grammar of more than 256 rules after preparation, one of which has lost a symbol that derives nothing, read back through serde"
breaks = "serde writes the sparse table of omitted symbols with 8-bit rule numbers, so in a large grammar the omitted symbols belong to wrong rules"
edits = [("gearley-grammar/src/lib.rs", """#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[derive(Serialize, Deserialize, Clone, Default, Debug)]
pub struct ForestInfo {
""", """#[cfg(feature = "serde")]
#[derive(serde::Serialize, serde::Deserialize)]
struct ForestInfoRepr {
    eval: Vec<ExternalOrigin>,
    nulling_intermediate_rules: Vec<NullingIntermediateRule>,
    // Few rules have an eliminated symbol: its rule, the symbol and its direction.
    nulling_eliminated: Vec<(u8, NullingEliminated)>,
    sof: Symbol,
    eof: Symbol,
    start: Symbol,
}

#[cfg(feature = "serde")]
impl serde::Serialize for ForestInfo {
    fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        let eliminated = self.nulling_eliminated.iter().enumerate();
        ForestInfoRepr {
            eval: self.eval.clone(),
            nulling_intermediate_rules: self.nulling_intermediate_rules.clone(),
            nulling_eliminated: eliminated
                .filter(|&(_, elim)| elim.is_some())
                .map(|(dot, &elim)| (dot as u8, elim))
                .collect(),
            sof: self.sof,
            eof: self.eof,
            start: self.start,
        }
        .serialize(serializer)
    }
}

#[cfg(feature = "serde")]
impl<'de> serde::Deserialize<'de> for ForestInfo {
    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        let repr = ForestInfoRepr::deserialize(deserializer)?;
        let mut nulling_eliminated = vec![None; repr.eval.len()];
        for (dot, elim) in repr.nulling_eliminated {
            nulling_eliminated[dot as usize] = elim;
        }
        Ok(ForestInfo {
            eval: repr.eval,
            nulling_intermediate_rules: repr.nulling_intermediate_rules,
            nulling_eliminated,
            sof: repr.sof,
            eof: repr.eof,
            start: repr.start,
        })
    }
}

#[derive(Serialize, Deserialize, Clone, Default, Debug)]
pub struct ForestInfo {
""")]
demo = """
fn main() {
    // S ::= K; K ::= t_i A for many i; A ::= nothing | x
    let n = 300;
    let mut rules: Vec<(usize, Vec<usize>)> = vec![(0, vec![1]), (2, vec![]), (2, vec![3])];
    for i in 0..n {
        rules.push((1, vec![4 + i, 2]));
    }
    let refs: Vec<(usize, &[usize])> = rules.iter().map(|r| (r.0, &r.1[..])).collect();
    let dg = grammar(4 + n, 0, &refs);
    let copy: DefaultGrammar = serde_json::from_str(&serde_json::to_string(&dg).unwrap()).unwrap();
    for i in (0..n).step_by(7) {
        assert_eq!(simple(&copy, &[4 + i]), simple(&dg, &[4 + i]));
        assert_eq!(simple(&copy, &[4 + i, 3]), simple(&dg, &[4 + i, 3]));
    }
}
"""
