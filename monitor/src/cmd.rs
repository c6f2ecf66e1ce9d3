//! Commands as values, and their rendering as argument vectors.
use crate::rng::Rng;
use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Area { pub min: P, pub max: P }
impl Area {
    pub fn of(a: P, b: P) -> Area {
        let f = |i: usize| (a[i].min(b[i]), a[i].max(b[i]));
        Area { min: [f(0).0, f(1).0, f(2).0], max: [f(0).1, f(1).1, f(2).1] }
    }
    pub fn has(&self, p: P) -> bool { (0..3).all(|i| self.min[i] <= p[i] && p[i] <= self.max[i]) }
    pub fn covers_block(&self, b: P) -> bool { (0..3).all(|i| self.min[i] <= b[i] * 16 && b[i] * 16 + 15 <= self.max[i]) }
    pub fn meets_block(&self, b: P) -> bool { (0..3).all(|i| self.min[i] <= b[i] * 16 + 15 && b[i] * 16 <= self.max[i]) }
    pub fn shift(&self, o: P) -> Area { Area { min: add(self.min, o), max: add(self.max, o) } }
}

/// A selection of nodes: an area, its complement, or everything.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Sel { pub area: Option<Area>, pub invert: bool }
impl Sel {
    pub fn has(&self, p: P) -> bool { self.area.is_none_or(|a| a.has(p) != self.invert) }
    pub fn any_of_block(&self, b: P) -> bool {
        self.area.is_none_or(|a| if self.invert { !a.covers_block(b) } else { a.meets_block(b) })
    }
    pub fn all_of_block(&self, b: P) -> bool {
        self.area.is_none_or(|a| if self.invert { !a.meets_block(b) } else { a.covers_block(b) })
    }
}

#[derive(Clone, Debug, Default)]
pub struct Cmd {
    pub name: &'static str,
    pub p1: Option<P>, pub p2: Option<P>, pub invert: bool, pub offset: Option<P>,
    pub node: Option<String>, pub new_node: Option<String>, pub nodes: Vec<String>,
    pub obj: Option<String>, pub items: Option<Vec<String>>,
    pub item: Option<String>, pub new_item: Option<String>,
    pub delete: bool, pub delete_meta: bool,
    pub key: Option<String>, pub value: Option<String>, pub param2: Option<u8>,
}

pub const ALL: [&str; 12] = ["clone", "deleteblocks", "deletemeta", "deleteobjects", "deletetimers", "fill",
    "overlay", "replaceininv", "replacenodes", "setmetavar", "setparam2", "vacuum"];

impl Cmd {
    pub fn area(&self) -> Option<Area> { match (self.p1, self.p2) { (Some(a), Some(b)) => Some(Area::of(a, b)), _ => None } }
    pub fn sel(&self) -> Sel { Sel { area: self.area(), invert: self.invert } }
    pub fn has_offset(&self) -> bool { self.offset.is_some_and(|o| o != [0, 0, 0]) }
    /// The region of the main map in which the command may change nodes.
    pub fn target(&self) -> Sel {
        match (self.name, self.offset) {
            ("clone", Some(o)) | ("overlay", Some(o)) => Sel { area: self.area().map(|a| a.shift(o)), invert: self.invert },
            ("vacuum", _) => Sel { area: Some(Area { min: [0; 3], max: [-1; 3] }), invert: false },
            _ => self.sel(),
        }
    }
    pub fn positionals(&self, input: Option<&str>) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        match self.name {
            "replacenodes" => { v.extend(self.node.clone()); v.extend(self.new_node.clone()); }
            "fill" => v.extend(self.new_node.clone()),
            "setparam2" => v.extend(self.param2.map(|p| p.to_string())),
            "setmetavar" => { v.extend(self.key.clone()); v.extend(self.value.clone()); }
            "replaceininv" => { v.extend(self.item.clone()); v.extend(self.new_item.clone()); }
            "overlay" => v.extend(input.map(str::to_string)),
            _ => {}
        }
        v
    }
    /// Options as groups: (words, may be followed by a positional).
    pub fn options(&self) -> Vec<(Vec<String>, bool)> {
        let mut v: Vec<(Vec<String>, bool)> = vec![];
        let pos = |n: &str, p: P| (vec![n.to_string(), p[0].to_string(), p[1].to_string(), p[2].to_string()], true);
        if let Some(p) = self.p1 { v.push(pos("--p1", p)); }
        if let Some(p) = self.p2 { v.push(pos("--p2", p)); }
        if let Some(p) = self.offset { v.push(pos("--offset", p)); }
        if self.invert { v.push((vec!["--invert".into()], true)); }
        if self.delete { v.push((vec!["--delete".into()], true)); }
        if self.delete_meta { v.push((vec!["--deletemeta".into()], true)); }
        if self.name != "replacenodes" { if let Some(n) = &self.node { v.push((vec!["--node".into(), n.clone()], true)); } }
        if let Some(n) = &self.obj { v.push((vec!["--obj".into(), n.clone()], true)); }
        if !self.nodes.is_empty() {
            let mut w = vec!["--nodes".to_string()];
            w.extend(self.nodes.iter().cloned());
            v.push((w, false));
        }
        if let Some(it) = &self.items {
            let mut w = vec!["--items".to_string()];
            w.extend(it.iter().cloned());
            v.push((w, false));
        }
        v
    }
    /// Arguments after the program name; `r` only varies their order.
    pub fn argv(&self, map: &str, input: Option<&str>, yes: bool, r: &mut Rng) -> Vec<String> {
        let mut opts = self.options();
        r.shuffle(&mut opts);
        let (mut before, mut after) = (vec![], vec![]);
        for (w, fixed) in opts {
            if fixed && r.chance(0.3) { before.extend(w); } else { after.extend(w); }
        }
        let y = if r.chance(0.5) { "-y".to_string() } else { "--yes".to_string() };
        let mut v = vec![];
        let at = if yes { r.weighted(&[6, 1, 1]) } else { 9 };
        if at == 0 { v.push(y.clone()); }
        v.push(map.to_string());
        if at == 1 { v.push(y.clone()); }
        v.push(self.name.to_string());
        if at == 2 { v.push(y); }
        v.extend(before);
        v.extend(self.positionals(input));
        v.extend(after);
        v
    }
}

pub fn shell(v: &[String]) -> String {
    v.iter().map(|s| if !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || "-_./:".contains(c)) { s.clone() }
        else { format!("'{}'", s.replace('\'', "'\\''")) }).collect::<Vec<_>>().join(" ")
}
