//! Exploration of the decoder over the tree of inputs: a node is a byte string, its children
//! extend it by one byte. The model tells at each node whether the input is complete,
//! incomplete or malformed; only incomplete nodes have children (the decoder has not asked
//! for more elsewhere, which is checked by offering a further byte).
use crate::gen;
use crate::model::*;

pub struct Node<'a> {
    pub bytes: &'a [u8],
    /// None: incomplete
    pub want: Option<Result<usize, ()>>,
}

/// `model` returns bytes used, incomplete with the role of the next byte, or malformed.
/// `visit` returns false to stop. Returns (nodes, edges, whether the node limit was hit).
pub fn walk(
    model: &dyn Fn(&[u8]) -> Result<usize, Stop>,
    rich: u8,
    max_len: usize,
    limit: u64,
    visit: &mut dyn FnMut(Node) -> bool,
) -> (u64, u64, bool) {
    let mut stack: Vec<Vec<u8>> = vec![vec![]];
    let (mut nodes, mut edges) = (0u64, 0u64);
    while let Some(b) = stack.pop() {
        nodes += 1;
        match model(&b) {
            Ok(used) => {
                if !visit(Node { bytes: &b, want: Some(Ok(used)) }) {
                    return (nodes, edges, false);
                }
            }
            Err(Stop::Invalid) => {
                if !visit(Node { bytes: &b, want: Some(Err(())) }) {
                    return (nodes, edges, false);
                }
            }
            Err(Stop::More(role)) => {
                if !visit(Node { bytes: &b, want: None }) {
                    return (nodes, edges, false);
                }
                if b.len() < max_len {
                    if nodes + stack.len() as u64 > limit {
                        return (nodes, edges, true);
                    }
                    for x in gen::alphabet(&role, rich).into_iter().rev() {
                        let mut c = b.clone();
                        c.push(x);
                        edges += 1;
                        stack.push(c);
                    }
                }
            }
        }
    }
    (nodes, edges, false)
}
