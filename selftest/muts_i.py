NB = 'node_tree_core/src/structs/node_base.rs'
MUTS = [
 ('p30-parent-of-root', 'bug', ['P30'], [(NB, "Err(NodeError::NoParent))\n            }\n        }\n    }\n    \n    /// Gets a `TpDyn` pointer to the direct", "Err(NodeError::TPError(TPError::IsNull)))\n            }\n        }\n    }\n    \n    /// Gets a `TpDyn` pointer to the direct")]),
 ('p30-off-by-one', 'bug', ['P30'], [(NB, """        if i >= self.num_children() {
            unsafe {
                TreeResult::new(self.tree.unwrap_unchecked(), self.rid, Err(NodeError::IndexOutOfRange { index: i, children_count: self.num_children() }))
            }
        } else {
            unsafe {
                TpDyn::new""", """        if i > self.num_children() {
            unsafe {
                TreeResult::new(self.tree.unwrap_unchecked(), self.rid, Err(NodeError::IndexOutOfRange { index: i, children_count: self.num_children() }))
            }
        } else {
            unsafe {
                TpDyn::new""")]),
 ('p30-swapped-error', 'bug', ['P30'], [(NB, "Err(NodeError::IndexOutOfRange { index: i, children_count: self.num_children() }))\n            }\n        } else {\n            unsafe {\n                Tp::new", "Err(NodeError::IndexOutOfRange { index: self.num_children(), children_count: i }))\n            }\n        } else {\n            unsafe {\n                Tp::new")]),
 ('p30-last-child', 'bug', ['P30'], [(NB, "                Tp::new(self.tree.unwrap_unchecked(), self.rid, self.children[i])", "                Tp::new(self.tree.unwrap_unchecked(), self.rid, self.children[self.children.len() - 1 - i])")]),
 ('p30-owner-for-parent', 'bug', ['P30'], [(NB, """        match self.parent {
            Some(parent) => {
                unsafe {
                    TpDyn::new""", """        match self.owner {
            Some(parent) => {
                unsafe {
                    TpDyn::new""")]),
 ('p30-owner-swapped', 'bug', ['P30'], [(NB, "Tp::new(self.tree.unwrap_unchecked(), self.rid, self.owner.unwrap_unchecked())", "Tp::new(self.tree.unwrap_unchecked(), self.owner.unwrap_unchecked(), self.rid)")]),
 ('p30-owner-dyn-parent', 'bug', ['P30'], [(NB, "TpDyn::new(self.tree.unwrap_unchecked(), self.rid, self.owner.unwrap_unchecked()).unwrap_unchecked()", "TpDyn::new(self.tree.unwrap_unchecked(), self.rid, self.parent.unwrap_or(self.owner.unwrap_unchecked())).unwrap_unchecked()")]),
 ('p30-root-owner', 'bug', ['P30'], [(NB, "self.parent.is_none() && self.in_tree()", "self.depth == 0 && self.in_tree()")]),
 ('p30-root-stray', 'bug', ['P30'], [(NB, "self.parent.is_none() && self.in_tree()", "self.parent.is_none()")]),
 ('p30-is-owner', 'bug', ['P30'], [(NB, "Some(owner) => self.rid == owner,", "Some(owner) => self.rid == owner || self.parent == Some(owner),")]),
 ('p30-stray-owner', 'bug', ['P30'], [(NB, """            Some(owner) => self.rid == owner,
            None        => false""", """            Some(owner) => self.rid == owner,
            None        => true""")]),
 ('p30-rev-children', 'bug', ['P30'], [(NB, "self.children.iter().map(|&c| unsafe", "self.children.iter().rev().map(|&c| unsafe")]),
 ('p30-skip-children', 'bug', ['P30'], [(NB, "self.children.iter().map(|&c| unsafe", "self.children.iter().skip(1).map(|&c| unsafe")]),
 ('p30-childless', 'bug', ['P30'], [(NB, "self.num_children() == 0", "self.num_children() <= 1")]),
 ('p30-stray-children', 'bug', ['P30'], [(NB, """            panic!("Cannot get children from a node that is not a part of a NodeTree!");""", "            return Vec::new();")]),
 ('p30-depth-root', 'bug', ['P30'], [(NB, "    pub fn depth(&self) -> usize {\n        self.depth", "    pub fn depth(&self) -> usize {\n        if self.is_owner() { 0 } else { self.depth }")]),
 ('p30-this-owner', 'bug', ['P30'], [(NB, "            TpDyn::new(self.tree.unwrap_unchecked(), self.rid, self.rid).unwrap_unchecked()", "            TpDyn::new(self.tree.unwrap_unchecked(), self.owner.unwrap_unchecked(), self.rid).unwrap_unchecked()")]),
 ('p30-final-loaded', 'bug', ['P30'], [(NB, "    pub fn has_just_loaded(&self) -> bool {\n        self.loaded", "    pub fn has_just_loaded(&self) -> bool {\n        self.loaded && self.tree.is_none()")]),
 ('same-get-child-get', 'same', [], [(NB, """        if i >= self.num_children() {
            unsafe {
                TreeResult::new(self.tree.unwrap_unchecked(), self.rid, Err(NodeError::IndexOutOfRange { index: i, children_count: self.num_children() }))
            }
        } else {
            unsafe {
                TpDyn::new(self.tree.unwrap_unchecked(), self.rid, self.children[i])
                    .map_err(|err| NodeError::TPError(err))
            }
        }""", """        let tree = unsafe { self.tree.unwrap_unchecked() };
        match self.children.get(i) {
            Some(&child) => unsafe { TpDyn::new(tree, self.rid, child).map_err(NodeError::TPError) },
            None         => unsafe { TreeResult::new(tree, self.rid, Err(NodeError::IndexOutOfRange { index: i, children_count: self.children.len() })) }
        }""")]),
 ('same-get-child-flip', 'same', [], [(NB, """        if i >= self.num_children() {
            unsafe {
                TreeResult::new(self.tree.unwrap_unchecked(), self.rid, Err(NodeError::IndexOutOfRange { index: i, children_count: self.num_children() }))
            }
        } else {
            unsafe {
                Tp::new(self.tree.unwrap_unchecked(), self.rid, self.children[i])
                    .map_err(|err| NodeError::TPError(err))
            }
        }""", """        let count = self.children.len();
        if count > i {
            let child: RID = self.children[i];
            return unsafe { Tp::new(self.tree.unwrap_unchecked(), self.rid(), child) }.map_err(|err| NodeError::TPError(err));
        }
        let error = NodeError::IndexOutOfRange { children_count: count, index: i };
        unsafe { TreeResult::new(self.tree.unwrap_unchecked(), self.rid(), Err(error)) }""")]),
 ('same-parent-else', 'same', [], [(NB, """        match self.parent {
            Some(parent) => {
                unsafe {
                    Tp::new(self.tree.unwrap_unchecked(), self.rid, parent)
                        .map_err(|err| NodeError::TPError(err))
                }
            },
            None => unsafe {
                TreeResult::new(self.tree.unwrap_unchecked(), self.rid, Err(NodeError::NoParent))
            }
        }""", """        let tree = unsafe { self.tree.unwrap_unchecked() };
        let Some(parent) = self.parent else {
            return unsafe { TreeResult::new(tree, self.rid, Err(NodeError::NoParent)) };
        };
        unsafe { Tp::new(tree, self.rid, parent) }.map_err(NodeError::TPError)""")]),
 ('same-children-loop', 'same', [], [(NB, """        self.children.iter().map(|&c| unsafe { TpDyn::new(self.tree.unwrap_unchecked(), self.rid, c).unwrap_unchecked() }).collect()""", """        let mut list: Vec<TpDyn> = Vec::with_capacity(self.children.len());
        for child in &self.children {
            let pointer = unsafe { TpDyn::new(self.tree.unwrap_unchecked(), self.rid, *child) };
            list.push(unsafe { pointer.unwrap_unchecked() });
        }
        list""")]),
 ('same-num-children-len', 'same', [], [(NB, "        self.children().len()", "        self.children.len()"), (NB, "self.num_children() == 0", "self.children.is_empty()")]),
 ('same-is-owner-eq', 'same', [], [(NB, """        match self.owner {
            Some(owner) => self.rid == owner,
            None        => false
        }""", "        self.owner == Some(self.rid)")]),
 ('same-is-owner-and', 'same', [], [(NB, """        match self.owner {
            Some(owner) => self.rid == owner,
            None        => false
        }""", "        self.owner.is_some_and(|owner| owner == self.rid)")]),
 ('same-in-tree', 'same', [], [(NB, "    pub fn in_tree(&self) -> bool {\n        self.tree().is_some()", "    pub fn in_tree(&self) -> bool {\n        !self.is_stray()"), (NB, "    pub fn is_stray(&self) -> bool {\n        self.tree().is_none()", "    pub fn is_stray(&self) -> bool {\n        matches!(self.tree, None)"), (NB, "self.parent.is_none() && self.in_tree()", "if self.is_stray() { return false; }\n        self.parent.is_none()")]),
]
