//! Stand-in for `cfg-history`: what a processed rule remembers about the user's rule.

pub mod earley {
    use cfg_symbol::Symbol;

    #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
    #[derive(
        miniserde::Serialize, miniserde::Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash,
    )]
    pub struct EventId {
        pub id: u32,
    }
    impl EventId {
        pub fn null() -> Self {
            EventId { id: !0 }
        }
        pub fn is_null(&self) -> bool {
            self.id == !0
        }
    }

    #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
    #[derive(
        miniserde::Serialize, miniserde::Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash,
    )]
    pub struct MinimalDistance {
        pub distance: u32,
    }
    impl MinimalDistance {
        pub fn null() -> Self {
            MinimalDistance { distance: !0 }
        }
        pub fn is_null(&self) -> bool {
            self.distance == !0
        }
    }

    pub type EventAndDistance = (EventId, MinimalDistance);

    #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
    #[derive(
        miniserde::Serialize, miniserde::Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash,
    )]
    pub struct ExternalDottedRule {
        pub id: u32,
        pub pos: u32,
    }
    impl ExternalDottedRule {
        pub fn null() -> Self {
            ExternalDottedRule { id: !0, pos: !0 }
        }
        pub fn is_null(&self) -> bool {
            self.id == !0
        }
    }

    #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
    #[derive(
        miniserde::Serialize, miniserde::Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash,
    )]
    pub struct ExternalOrigin {
        pub id: u32,
    }
    impl ExternalOrigin {
        pub fn null() -> Self {
            ExternalOrigin { id: !0 }
        }
        pub fn is_null(&self) -> bool {
            self.id == !0
        }
    }

    /// The nulled symbol of a rule, and whether it stood on the right of the remaining symbol.
    pub type NullingEliminated = Option<(Symbol, bool)>;

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct RuleDot {
        pub event: EventId,
        pub distance: MinimalDistance,
        pub trace: ExternalDottedRule,
    }
    impl RuleDot {
        pub fn null() -> Self {
            RuleDot {
                event: EventId::null(),
                distance: MinimalDistance::null(),
                trace: ExternalDottedRule::null(),
            }
        }
        pub fn trace(self) -> ExternalDottedRule {
            self.trace
        }
        pub fn event_and_distance(self) -> EventAndDistance {
            (self.event, self.distance)
        }
    }

    /// History of one processed rule. `dots[k]` annotates the dot before the rule's k-th symbol.
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct History {
        pub origin: ExternalOrigin,
        pub nullable: NullingEliminated,
        pub dots: Vec<RuleDot>,
    }
    impl History {
        pub fn origin(&self) -> ExternalOrigin {
            self.origin
        }
        pub fn nullable(&self) -> NullingEliminated {
            self.nullable
        }
        pub fn dot(&self, n: usize) -> RuleDot {
            self.dots.get(n).copied().unwrap_or(RuleDot::null())
        }
    }
}

pub use earley::History;
