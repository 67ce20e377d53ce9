//! Merkle trees with the shape and proof layout of rs_merkle (TLSNotary's fork,
//! whose hasher is an object): a node without right sibling is moved up unchanged.

pub trait Hash: Clone + PartialEq + Into<Vec<u8>> + TryFrom<Vec<u8>> {
    const SIZE: usize;
}

pub trait Hasher: Clone {
    type Hash: Hash;
    fn hash(&self, data: &[u8]) -> Self::Hash;
    fn concat_and_hash(&self, left: &Self::Hash, right: Option<&Self::Hash>) -> Self::Hash {
        match right {
            Some(r) => {
                let mut v: Vec<u8> = left.clone().into();
                v.append(&mut r.clone().into());
                self.hash(&v)
            }
            None => left.clone(),
        }
    }
}

fn depth(leaves: usize) -> usize {
    if leaves == 1 {
        1
    } else {
        (leaves as u128).next_power_of_two().trailing_zeros() as usize
    }
}

/// For each level, which positions beside the known ones are needed.
fn helpers(known: &[usize], leaves: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut level = known.to_vec();
    let mut width = leaves;
    for _ in 0..depth(leaves) {
        let mut need = vec![];
        for i in &level {
            let s = i ^ 1;
            if level.binary_search(&s).is_err() && s < width {
                need.push(s);
            }
        }
        out.push(need);
        level = level.iter().map(|i| i / 2).collect();
        level.dedup();
        width = width.div_ceil(2);
    }
    out
}

#[derive(Clone, Debug, PartialEq, Eq)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct MerkleProof<H> {
    proof_hashes: Vec<H>,
}

impl<H: Hash> MerkleProof<H> {
    pub fn new(proof_hashes: Vec<H>) -> Self {
        Self { proof_hashes }
    }
    pub fn proof_hashes(&self) -> &[H] {
        &self.proof_hashes
    }
    /// As the original computes it: which hashes are taken from the proof follows
    /// from the positions, nodes are then combined pairwise in order, and the first
    /// node of the last layer is the root. Positions past the end are not refused.
    pub fn root<T: Hasher<Hash = H>>(&self, hasher: &T, indices: &[usize], leaves: &[H], total: usize) -> Option<H> {
        if indices.len() != leaves.len() || total == 0 {
            return None;
        }
        let mut nodes: Vec<(usize, H)> = indices.iter().copied().zip(leaves.iter().cloned()).collect();
        nodes.sort_by_key(|n| n.0);
        let mut rest = self.proof_hashes.iter();
        let mut width = total;
        let mut first = None;
        for _ in 0..depth(total) {
            let mut need: Vec<usize> = nodes.iter().map(|(i, _)| i ^ 1).filter(|s| !nodes.iter().any(|(i, _)| i == s)).collect();
            if width % 2 == 1 && nodes.last().is_some_and(|(i, _)| *i == width - 1) {
                need.pop();
            }
            for i in need {
                nodes.push((i, rest.next()?.clone()));
            }
            nodes.sort_by_key(|n| n.0);
            let mut parents: Vec<usize> = nodes.iter().map(|(i, _)| i / 2).collect();
            parents.dedup();
            nodes = parents
                .into_iter()
                .enumerate()
                .map(|(n, p)| Some((p, hasher.concat_and_hash(&nodes.get(2 * n)?.1, nodes.get(2 * n + 1).map(|x| &x.1)))))
                .collect::<Option<Vec<_>>>()?;
            width = width.div_ceil(2);
            first = nodes.first().map(|n| n.1.clone());
        }
        first
    }
    pub fn verify<T: Hasher<Hash = H>>(&self, hasher: &T, root: H, indices: &[usize], leaves: &[H], total: usize) -> bool {
        self.root(hasher, indices, leaves, total) == Some(root)
    }
}

#[derive(Clone, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct MerkleTree<H> {
    layers: Vec<Vec<H>>,
    uncommitted: Vec<H>,
}

impl<H> Default for MerkleTree<H> {
    fn default() -> Self {
        Self { layers: vec![], uncommitted: vec![] }
    }
}

impl<H: Hash> MerkleTree<H> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn append(&mut self, leaves: &mut Vec<H>) -> &mut Self {
        self.uncommitted.append(leaves);
        self
    }
    pub fn insert(&mut self, leaf: H) -> &mut Self {
        self.uncommitted.push(leaf);
        self
    }
    pub fn commit<T: Hasher<Hash = H>>(&mut self, hasher: &T) {
        let mut leaves = if self.layers.is_empty() { vec![] } else { self.layers.swap_remove(0) };
        leaves.append(&mut self.uncommitted);
        self.layers.clear();
        if leaves.is_empty() {
            return;
        }
        let d = depth(leaves.len());
        self.layers.push(leaves);
        for l in 0..d {
            let up = self.layers[l].chunks(2).map(|c| hasher.concat_and_hash(&c[0], c.get(1))).collect();
            self.layers.push(up);
        }
    }
    pub fn root(&self) -> Option<H> {
        self.layers.last()?.first().cloned()
    }
    pub fn leaves(&self) -> Option<Vec<H>> {
        self.layers.first().cloned()
    }
    pub fn leaves_len(&self) -> usize {
        self.layers.first().map_or(0, |l| l.len())
    }
    pub fn depth(&self) -> usize {
        self.layers.len().saturating_sub(1)
    }
    pub fn proof(&self, indices: &[usize]) -> MerkleProof<H> {
        let mut idx = indices.to_vec();
        idx.sort_unstable();
        idx.dedup();
        let mut hashes = vec![];
        for (l, need) in helpers(&idx, self.leaves_len()).into_iter().enumerate() {
            for i in need {
                hashes.push(self.layers[l][i].clone());
            }
        }
        MerkleProof { proof_hashes: hashes }
    }
}
