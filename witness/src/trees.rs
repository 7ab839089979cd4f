use node_tree::prelude::*;

#[derive(Debug, Tree)]
pub struct Wood {
    pub before: Option<u32>,
    base: Option<NodeTreeBase>,
    pub after: u32,
}
