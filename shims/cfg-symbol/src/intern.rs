use crate::Symbol;

/// Mapping between external symbols (the user's) and internal symbols (renumbered).
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[derive(miniserde::Serialize, miniserde::Deserialize, Clone, Debug, Default, PartialEq, Eq)]
pub struct Mapping {
    pub to_internal: Vec<Option<Symbol>>,
    pub to_external: Vec<Symbol>,
}
