//! Reference document tree, with its own html5ever tree sink.
use html5ever::interface::tree_builder::{ElementFlags, NodeOrText, QuirksMode, TreeSink};
use html5ever::tendril::{StrTendril, TendrilSink};
use html5ever::{parse_document, Attribute, ExpandedName, QualName};
use std::borrow::Cow;

pub const HTML: &str = "http://www.w3.org/1999/xhtml";
pub const SVG: &str = "http://www.w3.org/2000/svg";
pub const MATHML: &str = "http://www.w3.org/1998/Math/MathML";

#[derive(Clone, Debug, PartialEq)]
pub struct Attr {
    pub ns: String,
    pub local: String,
    pub value: String,
}

#[derive(Clone, Debug)]
pub enum Data {
    Document,
    Text(String),
    Element { name: QualName, ns: String, local: String, attrs: Vec<Attr>, integration_point: bool },
    Other,
}

#[derive(Clone, Debug)]
pub struct Node {
    pub parent: Option<usize>,
    pub children: Vec<usize>,
    pub data: Data,
}

#[derive(Clone, Debug)]
pub struct Dom {
    pub nodes: Vec<Node>,
    pub moves: Moves,
}

/// What the parser did other than appending
#[derive(Clone, Debug, Default)]
pub struct Moves {
    pub before_sibling: u64,
    pub moved: u64,
    pub removed: u64,
    pub late_attributes: u64,
    pub text_merged: u64,
}

impl Dom {
    pub fn new() -> Dom {
        Dom { nodes: vec![Node { parent: None, children: vec![], data: Data::Document }], moves: Moves::default() }
    }
    pub fn push(&mut self, data: Data) -> usize {
        self.nodes.push(Node { parent: None, children: vec![], data });
        self.nodes.len() - 1
    }
    pub fn element(&mut self, ns: &str, local: &str, attrs: Vec<Attr>) -> usize {
        let name = QualName::new(None, ns.into(), local.into());
        self.push(Data::Element { name, ns: ns.into(), local: local.into(), attrs, integration_point: false })
    }
    pub fn detach(&mut self, n: usize) {
        if let Some(p) = self.nodes[n].parent.take() {
            self.nodes[p].children.retain(|&c| c != n)
        }
    }
    pub fn insert(&mut self, parent: usize, at: usize, n: usize) {
        self.nodes[parent].children.insert(at, n);
        self.nodes[n].parent = Some(parent)
    }
    pub fn append(&mut self, parent: usize, n: usize) {
        self.detach(n);
        let at = self.nodes[parent].children.len();
        self.insert(parent, at, n)
    }
    pub fn append_text(&mut self, parent: usize, text: &str) {
        if let Some(&last) = self.nodes[parent].children.last() {
            if let Data::Text(t) = &mut self.nodes[last].data {
                t.push_str(text);
                return;
            }
        }
        let n = self.push(Data::Text(text.into()));
        self.append(parent, n)
    }
    pub fn index_in_parent(&self, n: usize) -> Option<(usize, usize)> {
        let p = self.nodes[n].parent?;
        Some((p, self.nodes[p].children.iter().position(|&c| c == n).unwrap()))
    }

    pub fn is_element(&self, n: usize) -> bool {
        matches!(self.nodes[n].data, Data::Element { .. })
    }
    pub fn local(&self, n: usize) -> &str {
        match &self.nodes[n].data {
            Data::Element { local, .. } => local,
            _ => "",
        }
    }
    pub fn ns(&self, n: usize) -> &str {
        match &self.nodes[n].data {
            Data::Element { ns, .. } => ns,
            _ => "",
        }
    }
    pub fn attrs(&self, n: usize) -> &[Attr] {
        match &self.nodes[n].data {
            Data::Element { attrs, .. } => attrs,
            _ => &[],
        }
    }
    /// Attribute in no namespace
    pub fn attr(&self, n: usize, name: &str) -> Option<&str> {
        self.attrs(n).iter().find(|a| a.ns.is_empty() && a.local == name).map(|a| &*a.value)
    }
    pub fn is_html(&self, n: usize, local: &str) -> bool {
        self.ns(n) == HTML && self.local(n) == local
    }
    pub fn element_children(&self, n: usize) -> Vec<usize> {
        self.nodes[n].children.iter().cloned().filter(|&c| self.is_element(c)).collect()
    }
    pub fn parent_element(&self, n: usize) -> Option<usize> {
        self.nodes[n].parent.filter(|&p| self.is_element(p))
    }
    pub fn root(&self) -> Option<usize> {
        self.element_children(0).first().cloned()
    }
    /// All nodes in the tree, in tree order
    pub fn tree(&self) -> Vec<usize> {
        let mut out = Vec::new();
        let mut stack = vec![0];
        while let Some(n) = stack.pop() {
            out.push(n);
            stack.extend(self.nodes[n].children.iter().rev())
        }
        out
    }
    pub fn elements(&self) -> Vec<usize> {
        self.tree().into_iter().filter(|&n| self.is_element(n)).collect()
    }
    /// Nesting of elements
    pub fn depth(&self) -> usize {
        let mut max = 0;
        let mut stack = vec![(0, 0)];
        while let Some((n, d)) = stack.pop() {
            max = max.max(d);
            for &c in &self.nodes[n].children {
                stack.push((c, d + 1))
            }
        }
        max
    }
    pub fn child_text(&self, n: usize) -> String {
        let mut s = String::new();
        for &c in &self.nodes[n].children {
            if let Data::Text(t) = &self.nodes[c].data {
                s.push_str(t)
            }
        }
        s
    }

    pub fn parse_html(bytes: &[u8]) -> Dom {
        parse_document(Sink(Dom::new()), Default::default()).from_utf8().one(bytes)
    }
}

fn convert(attrs: Vec<Attribute>) -> Vec<Attr> {
    attrs.into_iter().map(|a| Attr { ns: a.name.ns.to_string(), local: a.name.local.to_string(), value: a.value.to_string() }).collect()
}

struct Sink(Dom);

impl Sink {
    fn insert_at(&mut self, parent: usize, at: usize, child: NodeOrText<usize>) {
        match child {
            NodeOrText::AppendNode(n) => {
                // The node may be an earlier child of the same parent
                let mut at = at;
                if let Some((p, i)) = self.0.index_in_parent(n) {
                    self.0.moves.moved += 1;
                    if p == parent && i < at {
                        at -= 1
                    }
                    self.0.detach(n)
                }
                self.0.insert(parent, at, n)
            }
            NodeOrText::AppendText(text) => {
                if at > 0 {
                    let before = self.0.nodes[parent].children[at - 1];
                    if let Data::Text(t) = &mut self.0.nodes[before].data {
                        t.push_str(&text);
                        self.0.moves.text_merged += 1;
                        return;
                    }
                }
                let n = self.0.push(Data::Text(text.to_string()));
                self.0.insert(parent, at, n)
            }
        }
    }
}

impl TreeSink for Sink {
    type Handle = usize;
    type Output = Dom;

    fn finish(self) -> Dom {
        self.0
    }
    fn parse_error(&mut self, _: Cow<'static, str>) {}
    fn get_document(&mut self) -> usize {
        0
    }
    fn set_quirks_mode(&mut self, _: QuirksMode) {}
    fn same_node(&self, x: &usize, y: &usize) -> bool {
        x == y
    }
    fn elem_name<'a>(&'a self, target: &'a usize) -> ExpandedName<'a> {
        match &self.0.nodes[*target].data {
            Data::Element { name, .. } => name.expanded(),
            _ => panic!("not an element"),
        }
    }
    // Same as the code under test: contents of templates are children of the template
    fn get_template_contents(&mut self, target: &usize) -> usize {
        *target
    }
    fn is_mathml_annotation_xml_integration_point(&self, target: &usize) -> bool {
        matches!(self.0.nodes[*target].data, Data::Element { integration_point: true, .. })
    }
    fn create_element(&mut self, name: QualName, attrs: Vec<Attribute>, flags: ElementFlags) -> usize {
        let ns = name.ns.to_string();
        let local = name.local.to_string();
        self.0.push(Data::Element { name, ns, local, attrs: convert(attrs), integration_point: flags.mathml_annotation_xml_integration_point })
    }
    fn create_comment(&mut self, _: StrTendril) -> usize {
        self.0.push(Data::Other)
    }
    fn create_pi(&mut self, _: StrTendril, _: StrTendril) -> usize {
        self.0.push(Data::Other)
    }
    fn append(&mut self, parent: &usize, child: NodeOrText<usize>) {
        let at = self.0.nodes[*parent].children.len();
        self.insert_at(*parent, at, child)
    }
    fn append_before_sibling(&mut self, sibling: &usize, child: NodeOrText<usize>) {
        if let Some((parent, at)) = self.0.index_in_parent(*sibling) {
            self.0.moves.before_sibling += 1;
            self.insert_at(parent, at, child)
        }
    }
    fn append_based_on_parent_node(&mut self, element: &usize, prev_element: &usize, child: NodeOrText<usize>) {
        if self.0.nodes[*element].parent.is_some() {
            self.append_before_sibling(element, child)
        } else {
            self.append(prev_element, child)
        }
    }
    fn append_doctype_to_document(&mut self, _: StrTendril, _: StrTendril, _: StrTendril) {
        let n = self.0.push(Data::Other);
        self.0.append(0, n)
    }
    fn add_attrs_if_missing(&mut self, target: &usize, new: Vec<Attribute>) {
        if let Data::Element { attrs, .. } = &mut self.0.nodes[*target].data {
            for a in convert(new) {
                if !attrs.iter().any(|b| b.ns == a.ns && b.local == a.local) {
                    attrs.push(a);
                    self.0.moves.late_attributes += 1
                }
            }
        }
    }
    fn remove_from_parent(&mut self, target: &usize) {
        self.0.moves.removed += 1;
        self.0.detach(*target)
    }
    fn reparent_children(&mut self, node: &usize, new_parent: &usize) {
        for c in std::mem::take(&mut self.0.nodes[*node].children) {
            self.0.nodes[c].parent = None;
            self.0.moves.moved += 1;
            self.0.append(*new_parent, c)
        }
    }
}
