//! C29: editing a syntax tree, against lists of children
use crate::engine::*;
use crate::ensure;
use std::collections::{BTreeMap, BTreeSet};
use tombi_rg_tree::{Direction, Language, NodeOrToken, TokenAtOffset};
use tombi_syntax::{SyntaxElement, SyntaxKind, SyntaxNode, SyntaxToken, TomlLanguage};
use unicode_segmentation::UnicodeSegmentation;

type Id = usize;
#[derive(Clone, Debug)]
struct Item {
    kind: SyntaxKind,
    /// Some for a token
    text: Option<String>,
    children: Vec<Id>,
    parent: Option<Id>,
}
#[derive(Clone, Default, Debug)]
struct Model {
    items: Vec<Item>,
}
const NODES: [SyntaxKind; 4] = [SyntaxKind::ROOT, SyntaxKind::KEYS, SyntaxKind::KEY_VALUE, SyntaxKind::TABLE];
const TOKENS: [(SyntaxKind, &str); 14] = [
    (SyntaxKind::COMMA, ","),
    (SyntaxKind::EQUAL, "="),
    (SyntaxKind::WHITESPACE, " "),
    (SyntaxKind::WHITESPACE, "  "),
    (SyntaxKind::LINE_BREAK, "\n"),
    (SyntaxKind::LINE_BREAK, "\r\n"),
    (SyntaxKind::BASIC_STRING, "\"é日\""),
    (SyntaxKind::BASIC_STRING, "\"👨\u{200d}👩\u{200d}👧\""),
    (SyntaxKind::MULTI_LINE_BASIC_STRING, "\"\"\"a\nb\r\n日\"\"\""),
    (SyntaxKind::COMMENT, "# c"),
    (SyntaxKind::INTEGER_DEC, "1"),
    (SyntaxKind::INTEGER_DEC, "42"),
    (SyntaxKind::DOT, "."),
    (SyntaxKind::BRACKET_START, "["),
];
impl Model {
    fn text(&self, id: Id) -> String {
        let it = &self.items[id];
        match &it.text {
            Some(t) => t.clone(),
            None => it.children.iter().map(|c| self.text(*c)).collect(),
        }
    }
    fn root(&self, mut id: Id) -> Id {
        while let Some(p) = self.items[id].parent {
            id = p;
        }
        id
    }
    fn roots(&self) -> Vec<Id> {
        (0..self.items.len()).filter(|i| self.items[*i].parent.is_none()).collect()
    }
    fn index(&self, id: Id) -> usize {
        self.items[id].parent.map(|p| self.items[p].children.iter().position(|c| *c == id).unwrap()).unwrap_or(0)
    }
    fn path(&self, mut id: Id) -> Vec<usize> {
        let mut v = vec![];
        while let Some(p) = self.items[id].parent {
            v.push(self.index(id));
            id = p;
        }
        v.reverse();
        v
    }
    /// start of an item in the text of its root
    fn start(&self, id: Id) -> usize {
        match self.items[id].parent {
            None => 0,
            Some(p) => self.start(p) + self.items[p].children.iter().take_while(|c| **c != id).map(|c| self.text(*c).len()).sum::<usize>(),
        }
    }
    fn inside(&self, id: Id, out: &mut Vec<Id>) {
        out.push(id);
        for c in &self.items[id].children {
            self.inside(*c, out);
        }
    }
    fn detach(&mut self, id: Id) {
        if let Some(p) = self.items[id].parent.take() {
            self.items[p].children.retain(|c| *c != id);
        }
    }
    fn is_token(&self, id: Id) -> bool {
        self.items[id].text.is_some()
    }
    fn show(&self, id: Id) -> String {
        let it = &self.items[id];
        match &it.text {
            Some(t) => format!("{id}:{t:?}"),
            None => format!("{id}:{:?}({})", it.kind, it.children.iter().map(|c| self.show(*c)).collect::<Vec<_>>().join(" ")),
        }
    }
    /// A copy of a tree with items of its own
    fn copy(&mut self, id: Id) -> Id {
        let it = self.items[id].clone();
        let new = self.items.len();
        self.items.push(Item { children: vec![], parent: None, ..it.clone() });
        for c in it.children {
            let k = self.copy(c);
            self.items[k].parent = Some(new);
            self.items[new].children.push(k);
        }
        new
    }
}
fn generate(src: &mut Src, m: &mut Model, depth: usize, size: &mut usize) -> Id {
    let id = m.items.len();
    m.items.push(Item { kind: *src.pick(&NODES), text: None, children: vec![], parent: None });
    let n = src.weighted(&[1, 3, 4, 4, 3, 2]);
    for _ in 0..n {
        if *size == 0 {
            break;
        }
        *size -= 1;
        let c = if depth > 0 && src.chance(2, 5) {
            generate(src, m, depth - 1, size)
        } else {
            let (kind, t) = *src.pick(&TOKENS);
            m.items.push(Item { kind, text: Some(t.into()), children: vec![], parent: None });
            m.items.len() - 1
        };
        m.items[c].parent = Some(id);
        m.items[id].children.push(c);
    }
    id
}
fn build(m: &Model, id: Id, b: &mut tombi_rg_tree::GreenNodeBuilder) {
    let it = &m.items[id];
    let kind = TomlLanguage::kind_to_raw(it.kind);
    match &it.text {
        Some(t) => b.token(kind, t),
        None => {
            b.start_node(kind);
            for c in &it.children {
                build(m, *c, b);
            }
            b.finish_node();
        }
    }
}
fn position(text: &str, at: usize) -> (u32, u32) {
    let p = &text[..at];
    let start = p.rfind('\n').map(|i| i + 1).unwrap_or(0);
    (p.matches('\n').count() as u32, p[start..].graphemes(true).count() as u32)
}
type Handle = NodeOrToken<SyntaxNode, SyntaxToken>;
fn text(h: &Handle) -> String {
    match h {
        NodeOrToken::Node(n) => n.text().to_string(),
        NodeOrToken::Token(t) => t.text().to_string(),
    }
}
struct World {
    m: Model,
    handles: BTreeMap<Id, Handle>,
    log: String,
}
impl World {
    /// The handle held, or one found from the root
    fn get(&self, id: Id) -> Result<Handle, Fail> {
        if let Some(h) = self.handles.get(&id) {
            return Ok(h.clone());
        }
        let mut h = self.handles[&self.m.root(id)].clone();
        for i in self.m.path(id) {
            let NodeOrToken::Node(n) = &h else { return fail("shape", format!("{}a token has no children", self.log)) };
            h = match n.children_with_tokens().nth(i) {
                Some(h) => h,
                None => return fail("shape", format!("{}no child {i} on the way to {id}", self.log)),
            };
        }
        Ok(h)
    }
    fn same(&self, h: Option<Handle>, want: Option<Id>, what: &str) -> CaseResult {
        let got = h.map(|h| (h.kind(), text(&h), u32::from(h.span().start)));
        let want = want.map(|w| (self.m.items[w].kind, self.m.text(w), self.m.start(w) as u32));
        ensure!(got == want, what, "{}{what}: {got:?}, not {want:?}", self.log);
        Ok(())
    }
    /// Everything a handle says
    fn check(&self, id: Id, h: &Handle) -> CaseResult {
        let m = &self.m;
        let it = &m.items[id];
        let log = &self.log;
        let root_text = m.text(m.root(id));
        let (start, t) = (m.start(id), m.text(id));
        let end = start + t.len();
        ensure!(h.kind() == it.kind, "kind", "{log}{id}: {:?}", h.kind());
        ensure!(text(h) == t, "text", "{log}{id}: {:?}, not {t:?}", text(h));
        // a root has no index
        ensure!(it.parent.is_none() || h.index() == m.index(id), "index", "{log}{id}: index {}", h.index());
        let span = h.span();
        ensure!((u32::from(span.start) as usize, u32::from(span.end) as usize) == (start, end), "span", "{log}{id}: {span:?}, not {start}..{end}");
        let r = h.range();
        let got = ((r.start.line, r.start.column), (r.end.line, r.end.column));
        let want = (position(&root_text, start), position(&root_text, end));
        ensure!(got == want, "range", "{log}{id}: {got:?}, not {want:?}");
        self.same(h.parent().map(NodeOrToken::Node), it.parent, "parent")?;
        let sibs: &[Id] = it.parent.map(|p| &m.items[p].children[..]).unwrap_or(&[]);
        let i = m.index(id);
        self.same(h.next_sibling_or_token(), sibs.get(i + 1).copied(), "next-sibling")?;
        self.same(h.prev_sibling_or_token(), i.checked_sub(1).and_then(|i| sibs.get(i).copied()), "prev-sibling")?;
        let depth = m.path(id).len();
        let anc = h.ancestors().count();
        ensure!(anc == depth + !m.is_token(id) as usize, "ancestors", "{log}{id}: {anc}");
        match h {
            NodeOrToken::Node(n) => {
                let nodes = |v: &[Id]| v.iter().copied().filter(|c| !m.is_token(*c)).collect::<Vec<_>>();
                let own = nodes(&it.children);
                self.same(n.first_child().map(NodeOrToken::Node), own.first().copied(), "first-child")?;
                self.same(n.last_child().map(NodeOrToken::Node), own.last().copied(), "last-child")?;
                self.same(n.first_child_or_token(), it.children.first().copied(), "first-child-or-token")?;
                self.same(n.last_child_or_token(), it.children.last().copied(), "last-child-or-token")?;
                ensure!(n.children().count() == own.len(), "children", "{log}{id}: {}", n.children().count());
                if it.parent.is_some() {
                    self.same(n.next_sibling().map(NodeOrToken::Node), nodes(&sibs[i + 1..]).first().copied(), "next-node")?;
                    self.same(n.prev_sibling().map(NodeOrToken::Node), nodes(&sibs[..i]).last().copied(), "prev-node")?;
                    ensure!(n.siblings(Direction::Next).count() == 1 + nodes(&sibs[i + 1..]).len(), "siblings", "{log}{id}");
                    ensure!(n.siblings_with_tokens(Direction::Prev).count() == 1 + i, "siblings", "{log}{id}");
                }
                let st = n.text();
                ensure!(u32::from(st.len()) as usize == t.len() && st.is_empty() == t.is_empty(), "text-len", "{log}{id}: {:?}", st.len());
                ensure!(st == t.as_str(), "text-eq", "{log}{id}: text differs from {t:?}");
                let mut order = vec![];
                m.inside(id, &mut order);
                let got: Vec<(SyntaxKind, u32)> = n.descendants_with_tokens().map(|e| (e.kind(), u32::from(e.span().start))).collect();
                let want: Vec<_> = order.iter().map(|d| (m.items[*d].kind, m.start(*d) as u32)).collect();
                ensure!(got == want, "descendants", "{log}{id}: {got:?}, not {want:?}");
                let got: Vec<SyntaxKind> = n.descendants().map(|e| e.kind()).collect();
                let want: Vec<_> = order.iter().filter(|d| !m.is_token(**d)).map(|d| m.items[*d].kind).collect();
                ensure!(got == want, "descendant-nodes", "{log}{id}: {got:?}, not {want:?}");
                let tokens: Vec<Id> = order.iter().copied().filter(|d| m.is_token(*d)).collect();
                let blank = order.iter().any(|d| m.text(*d).is_empty());
                if !blank {
                    self.same(n.first_token().map(NodeOrToken::Token), tokens.first().copied(), "first-token")?;
                    self.same(n.last_token().map(NodeOrToken::Token), tokens.last().copied(), "last-token")?;
                }
                for at in start..=end {
                    if !root_text.is_char_boundary(at) {
                        continue;
                    }
                    let got: Vec<u32> = match n.token_at_offset(tombi_text::Offset::new(at as u32)) {
                        TokenAtOffset::None => vec![],
                        TokenAtOffset::Single(t) => vec![t.span().start.into()],
                        TokenAtOffset::Between(a, b) => vec![a.span().start.into(), b.span().start.into()],
                    };
                    let want: Vec<u32> = tokens.iter().map(|t| (m.start(*t), m.text(*t).len())).filter(|(s, l)| *s <= at && at <= s + l).map(|(s, _)| s as u32).collect();
                    ensure!(got == want, "token-at", "{log}{id}: at {at} {got:?}, not {want:?}");
                }
            }
            NodeOrToken::Token(tok) => {
                let mut order = vec![];
                m.inside(m.root(id), &mut order);
                if !order.iter().any(|d| m.text(*d).is_empty()) {
                    let tokens: Vec<Id> = order.iter().copied().filter(|d| m.is_token(*d)).collect();
                    let k = tokens.iter().position(|t| *t == id).unwrap();
                    self.same(tok.next_token().map(NodeOrToken::Token), tokens.get(k + 1).copied(), "next-token")?;
                    self.same(tok.prev_token().map(NodeOrToken::Token), k.checked_sub(1).map(|k| tokens[k]), "prev-token")?;
                }
            }
        }
        Ok(())
    }
    /// The whole tree below
    fn check_tree(&self, id: Id, h: &Handle) -> CaseResult {
        ensure!(h.kind() == self.m.items[id].kind, "kind", "{}{id}: {:?}", self.log, h.kind());
        match h {
            NodeOrToken::Token(t) => ensure!(Some(t.text()) == self.m.items[id].text.as_deref(), "text", "{}{id}: {:?}", self.log, t.text()),
            NodeOrToken::Node(n) => {
                let kids: Vec<Handle> = n.children_with_tokens().collect();
                let want = &self.m.items[id].children;
                ensure!(kids.len() == want.len() && !self.m.is_token(id), "shape", "{}{id}: {} children, not {}", self.log, kids.len(), want.len());
                for (k, w) in kids.iter().zip(want) {
                    self.check_tree(*w, k)?;
                }
            }
        }
        Ok(())
    }
}
fn c29_edits(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut w = World { m: Model::default(), handles: BTreeMap::new(), log: String::new() };
    let mut size = src.usize(1, 24);
    let mut cache = tombi_rg_tree::NodeCache::default();
    let shared = src.bool();
    let root = generate(src, &mut w.m, 3, &mut size);
    let mut make = |m: &Model, id: Id| {
        let mut b = if shared { tombi_rg_tree::GreenNodeBuilder::with_cache(&mut cache) } else { tombi_rg_tree::GreenNodeBuilder::new() };
        build(m, id, &mut b);
        SyntaxNode::new_root(b.finish())
    };
    let original = make(&w.m, root);
    let frozen = w.m.clone();
    w.log = format!("tree {}\n", w.m.show(root));
    // handles into the immutable tree
    let kept: Vec<SyntaxElement> = original.descendants_with_tokens().collect();
    // the mutable copy may be asked for at any node
    let mut nodes = vec![];
    w.m.inside(root, &mut nodes);
    nodes.retain(|n| !w.m.is_token(*n));
    let at = *src.pick(&nodes);
    let NodeOrToken::Node(start) = ({
        let mut h: Handle = NodeOrToken::Node(original.clone());
        for i in w.m.path(at) {
            let NodeOrToken::Node(n) = &h else { unreachable!() };
            h = n.children_with_tokens().nth(i).unwrap();
        }
        h
    }) else {
        unreachable!()
    };
    let copy = start.clone_for_update();
    let top = copy.ancestors().last().unwrap();
    w.handles.insert(root, NodeOrToken::Node(top));
    w.handles.insert(at, NodeOrToken::Node(copy));
    let steps = src.usize(1, 16);
    let (mut moves, mut across) = (0, 0);
    let mut held = BTreeSet::new();
    for _ in 0..steps {
        let all: Vec<Id> = (0..w.m.items.len()).collect();
        let id = *src.pick(&all);
        match src.weighted(&[4, 2, 4, 8, 2, 1]) {
            // hold on to an item
            0 => {
                let h = w.get(id)?;
                held.insert(id);
                w.handles.insert(id, h);
                w.log += &format!("hold {id}\n");
            }
            1 => {
                if w.m.items[id].parent.is_some() && w.handles.remove(&id).is_some() {
                    w.log += &format!("drop {id}\n");
                }
            }
            2 => {
                let h = w.get(id)?;
                w.log += &format!("detach {id}\n");
                h.detach();
                w.m.detach(id);
                w.handles.insert(id, h);
                moves += 1;
            }
            3 => {
                if w.m.is_token(id) {
                    continue;
                }
                let NodeOrToken::Node(n) = w.get(id)? else { return fail("shape", format!("{}{id} is a token", w.log)) };
                let len = w.m.items[id].children.len();
                let from = src.usize(0, len);
                let to = src.usize(from, len);
                let mut m = w.m.clone();
                for c in w.m.items[id].children[from..to].to_vec() {
                    m.detach(c);
                }
                // items that are not around the node
                let mut around = vec![];
                let mut up = Some(id);
                while let Some(u) = up {
                    around.push(u);
                    up = w.m.items[u].parent;
                }
                let deleted: Vec<Id> = w.m.items[id].children[from..to].to_vec();
                let mut insert: Vec<Id> = vec![];
                for _ in 0..src.usize(0, 3) {
                    let c = if src.chance(1, 3) && !deleted.is_empty() { *src.pick(&deleted) } else { *src.pick(&all) };
                    if around.contains(&c) || insert.contains(&c) {
                        continue;
                    }
                    // what is inserted leaves its place first: the index has to exist then
                    let mut trial = m.clone();
                    trial.detach(c);
                    if from + insert.len() > trial.items[id].children.len() {
                        continue;
                    }
                    trial.items[id].children.insert(from + insert.len(), c);
                    trial.items[c].parent = Some(id);
                    m = trial;
                    insert.push(c);
                }
                let elements = insert.iter().map(|c| w.get(*c)).collect::<Result<Vec<_>, _>>()?;
                // what loses its parent needs somebody who holds it
                for d in &deleted {
                    let h = w.get(*d)?;
                    w.handles.insert(*d, h);
                }
                across += insert.iter().any(|c| w.m.root(*c) != w.m.root(id) || held.contains(c)) as u32;
                w.log += &format!("splice {id} {from}..{to} {insert:?}\n");
                n.splice_children(from..to, elements);
                w.m = m;
                moves += 1;
            }
            // a new tree
            4 => {
                let mut size = src.usize(0, 6);
                let new = generate(src, &mut w.m, 2, &mut size);
                w.log += &format!("new {}\n", w.m.show(new));
                let n = make(&w.m, new).clone_for_update();
                w.handles.insert(new, NodeOrToken::Node(n));
            }
            // a copy of a part
            _ => {
                if let NodeOrToken::Node(n) = w.get(id)? {
                    let new = w.m.copy(id);
                    w.log += &format!("copy {id} as {new}\n");
                    w.handles.insert(new, NodeOrToken::Node(n.clone_subtree().clone_for_update()));
                }
            }
        }
        for r in w.m.roots() {
            w.check_tree(r, &w.handles[&r].clone())?;
        }
        for (id, h) in &w.handles {
            w.check(*id, h)?;
        }
    }
    // every item, also those nobody held
    for id in 0..w.m.items.len() {
        let h = w.get(id)?;
        w.check(id, &h)?;
    }
    // a node replaced gives a new tree and leaves its own
    let nodes: Vec<Id> = (0..w.m.items.len()).filter(|i| !w.m.is_token(*i)).collect();
    let id = *src.pick(&nodes);
    if let NodeOrToken::Node(n) = w.get(id)? {
        let mut m = w.m.clone();
        let mut size = src.usize(0, 5);
        let new = generate(src, &mut m, 1, &mut size);
        m.items[new].kind = m.items[id].kind;
        let green = make(&m, new).green().into_owned();
        let replaced = SyntaxNode::new_root(n.replace_with(green));
        let top = w.m.root(id);
        let mut want = if top == id { new } else { top };
        if let Some(p) = w.m.items[id].parent {
            let i = w.m.index(id);
            m.items[p].children[i] = new;
            m.items[new].parent = Some(p);
            want = top;
        }
        w.check(id, &NodeOrToken::Node(n))?;
        let log = format!("{}replace {id} by {}\n", w.log, m.show(new));
        let r = World { m, handles: BTreeMap::new(), log };
        r.check_tree(want, &NodeOrToken::Node(replaced.clone()))?;
        r.check(want, &NodeOrToken::Node(replaced))?;
    }
    // the original has not changed
    let o = World { m: frozen, handles: BTreeMap::new(), log: format!("{}the original:\n", w.log) };
    o.check_tree(root, &NodeOrToken::Node(original.clone()))?;
    let mut order = vec![];
    o.m.inside(root, &mut order);
    for (h, id) in kept.iter().zip(&order) {
        o.check(*id, h)?;
    }
    // pointers find their nodes
    for (h, id) in kept.iter().zip(&order) {
        if let NodeOrToken::Node(n) = h {
            let p = tombi_syntax::SyntaxNodePtr::new(n);
            let span = n.span();
            // the one that is not told apart from its only child is left open
            if !order.iter().any(|d| d != id && !o.m.is_token(*d) && o.m.text(*d).len() == o.m.text(*id).len()) && !span.is_empty() {
                ensure!(p.try_to_node(&original).as_ref() == Some(n), "pointer", "{}{id} is not found by its pointer", o.log);
            }
        }
    }
    ctx.label_if(across > 0, "moved a held or foreign item");
    ctx.label_if(shared, "shared subtrees");
    if moves >= 2 {
        ctx.nontrivial(&w.log);
    }
    ctx.attach("history.txt", &w.log);
    ctx.sample(w.log);
    Ok(())
}
/// A mutable copy has the ranges of its original
fn c29_probe(j: &serde_json::Value, _: &mut Ctx) -> CaseResult {
    let original = tombi_parser::parse(j["doc"].as_str().unwrap()).into_syntax_node();
    let copy = original.clone_for_update();
    for (a, b) in original.descendants_with_tokens().zip(copy.descendants_with_tokens()) {
        ensure!(a.range() == b.range(), "range", "{:?} is at {}, not at {}", a.kind(), b.range(), a.range());
    }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        rule: "the history has at least two edits; distinct by tree and history",
        assumptions: &["nothing is inserted into itself or at an index that does not exist", "tokens are not empty and do not join into one grapheme cluster"],
        streams: vec![Stream { name: "edits", quick: 30_000, thorough: 3_000_000, case: c29_edits }],
        probe: Some(c29_probe),
        min_nontrivial: 500,
    }]
}
