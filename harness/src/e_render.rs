//! Engine for the renderer: random graphs with hostile texts, the SVG is parsed and compared with
//! the graph
use triple_arena::{Arena, Link};
use triple_arena_render::{render_to_svg, render_to_svg_file, DebugNode, DebugNodeTrait, RenderError};

use crate::{cx::*, ptrs::*, rng::*};

/// Shows the `Ptr` it was asked with
struct Own<P: TP>(DebugNode<P>);
impl<P: TP> DebugNodeTrait<P> for Own<P> {
    fn debug_node(p_this: P, this: &Self) -> DebugNode<P> {
        let mut n = this.0.clone();
        n.center.push(format!("this {p_this:?}"));
        n
    }
}

// a small strict XML reader

#[derive(Debug)]
struct Elem {
    name: String,
    attrs: Vec<(String, String)>,
    text: String,
    depth: usize,
}

impl Elem {
    fn get(&self, a: &str) -> Result<&str, String> {
        self.attrs.iter().find(|x| x.0 == a).map(|x| x.1.as_str()).ok_or(format!("<{}> has no {a}", self.name))
    }

    fn num(&self, a: &str) -> Result<i64, String> {
        let s = self.get(a)?;
        s.parse().map_err(|_| format!("{a}={s} is not a number"))
    }
}

fn unescape(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut it = s.char_indices();
    while let Some((i, c)) = it.next() {
        if c == '<' {
            return Err("raw < in text".into())
        }
        if (c as u32) < 32 && !matches!(c, '\t' | '\n' | '\r') || matches!(c, '\u{fffe}' | '\u{ffff}') {
            return Err("character that is not allowed in XML".into())
        }
        if c != '&' {
            o.push(c);
            continue
        }
        let end = s[i..].find(';').ok_or("unterminated entity")? + i;
        let e = &s[i + 1..end];
        o.push(match e {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = e.strip_prefix("#x") { u32::from_str_radix(h, 16) } else if let Some(d) = e.strip_prefix('#') { d.parse() } else { return Err(format!("unknown entity {e}")) };
                n.ok().and_then(char::from_u32).ok_or(format!("bad character reference {e}"))?
            }
        });
        while it.next().is_some_and(|(j, _)| j < end) {}
    }
    if s.contains("]]>") {
        return Err("]]> in text".into())
    }
    Ok(o)
}

fn parse(s: &str) -> Result<Vec<Elem>, String> {
    let mut s = s;
    let mut out: Vec<Elem> = vec![];
    let mut stack: Vec<usize> = vec![];
    let mut roots = 0;
    let mut first = true;
    while !s.is_empty() {
        if let Some(r) = s.strip_prefix("<?xml") {
            if !first {
                return Err("late XML declaration".into())
            }
            s = &r[r.find("?>").ok_or("unterminated declaration")? + 2..];
        } else if let Some(r) = s.strip_prefix("<!DOCTYPE") {
            if roots > 0 {
                return Err("late DOCTYPE".into())
            }
            s = &r[r.find('>').ok_or("unterminated DOCTYPE")? + 1..];
        } else if let Some(r) = s.strip_prefix("<!--") {
            let e = r.find("--").ok_or("unterminated comment")?;
            s = r[e..].strip_prefix("-->").ok_or("-- in comment")?;
        } else if let Some(r) = s.strip_prefix("</") {
            let e = r.find('>').ok_or("unterminated tag")?;
            let name = r[..e].trim_end();
            let i = stack.pop().ok_or("end tag without start")?;
            if out[i].name != name {
                return Err(format!("<{}> ended by </{name}>", out[i].name))
            }
            out[i].text = unescape(&out[i].text)?;
            s = &r[e + 1..];
        } else if let Some(r) = s.strip_prefix('<') {
            let mut r = r;
            let e = r.find(|c: char| c.is_whitespace() || c == '>' || c == '/').ok_or("unterminated tag")?;
            let name = r[..e].to_string();
            if name.is_empty() || !name.chars().all(|c| c.is_alphanumeric()) {
                return Err(format!("bad tag name {name:?}"))
            }
            r = &r[e..];
            if stack.is_empty() {
                roots += 1;
                if roots > 1 {
                    return Err("more than one root element".into())
                }
            }
            let mut el = Elem {
                name,
                attrs: vec![],
                text: String::new(),
                depth: stack.len(),
            };
            let empty;
            loop {
                let t = r.trim_start();
                if let Some(x) = t.strip_prefix("/>") {
                    empty = true;
                    r = x;
                    break
                }
                if let Some(x) = t.strip_prefix('>') {
                    empty = false;
                    r = x;
                    break
                }
                if t.len() == r.len() {
                    return Err("attributes are not separated".into())
                }
                let eq = t.find('=').ok_or("attribute without value")?;
                let an = t[..eq].to_string();
                if an.is_empty() || !an.chars().all(|c| c.is_alphanumeric() || c == '-' || c == ':') {
                    return Err(format!("bad attribute name {an:?}"))
                }
                let x = t[eq + 1..].strip_prefix('"').ok_or("attribute is not quoted")?;
                let end = x.find('"').ok_or("unterminated attribute")?;
                if el.attrs.iter().any(|a| a.0 == an) {
                    return Err(format!("duplicate attribute {an}"))
                }
                el.attrs.push((an, unescape(&x[..end])?));
                r = &x[end + 1..];
            }
            out.push(el);
            if !empty {
                stack.push(out.len() - 1);
            }
            s = r;
        } else {
            let e = s.find('<').unwrap_or(s.len());
            match stack.last() {
                Some(i) => out[*i].text.push_str(&s[..e]),
                None => {
                    if !s[..e].trim().is_empty() {
                        return Err("text outside of the root element".into())
                    }
                }
            }
            s = &s[e..];
        }
        first = false;
    }
    if !stack.is_empty() {
        return Err("unclosed element".into())
    }
    if roots != 1 {
        return Err("no root element".into())
    }
    Ok(out)
}

#[derive(Clone, Copy, Debug)]
struct Rect {
    x: i64,
    y: i64,
    w: i64,
    h: i64,
}

impl Rect {
    fn has(&self, p: (i64, i64)) -> bool {
        (self.x..=self.x + self.w).contains(&p.0) && (self.y..=self.y + self.h).contains(&p.1)
    }

    fn within(&self, o: &Rect) -> bool {
        self.x >= o.x && self.y >= o.y && self.x + self.w <= o.x + o.w && self.y + self.h <= o.y + o.h
    }

    fn overlaps(&self, o: &Rect) -> bool {
        self.x < o.x + o.w && o.x < self.x + self.w && self.y < o.y + o.h && o.y < self.y + self.h
    }
}

struct Line {
    from: (i64, i64),
    to: (i64, i64),
}

struct Pic {
    area: Rect,
    view: Rect,
    rects: Vec<Rect>,
    /// x, y, length, text
    texts: Vec<(i64, i64, i64, String)>,
    lines: Vec<Line>,
}

fn numbers(s: &str) -> Result<Vec<i64>, String> {
    s.split([' ', ',']).filter(|x| !x.is_empty() && x.parse::<f64>().is_ok()).map(|x| x.parse::<i64>().map_err(|_| format!("{x} is not an integer"))).collect()
}

fn picture(s: &str) -> Result<Pic, String> {
    let els = parse(s)?;
    if els[0].name != "svg" {
        return Err("the root is not an svg element".into())
    }
    let v = numbers(els[0].get("viewBox")?)?;
    if v.len() != 4 {
        return Err("bad viewBox".into())
    }
    let mut p = Pic {
        area: Rect {
            x: 0,
            y: 0,
            w: 0,
            h: 0,
        },
        view: Rect {
            x: v[0],
            y: v[1],
            w: v[2],
            h: v[3],
        },
        rects: vec![],
        texts: vec![],
        lines: vec![],
    };
    for e in &els[1..] {
        if e.depth != 1 {
            return Err(format!("<{}> at depth {}", e.name, e.depth))
        }
        match e.name.as_str() {
            "rect" => p.rects.push(Rect {
                x: e.num("x")?,
                y: e.num("y")?,
                w: e.num("width")?,
                h: e.num("height")?,
            }),
            "text" => p.texts.push((e.num("x")?, e.num("y")?, e.num("textLength")?, e.text.clone())),
            "path" => {
                let n = numbers(e.get("d")?)?;
                if n.len() < 4 {
                    return Err("a path without two ends".into())
                }
                p.lines.push(Line {
                    from: (n[0], n[1]),
                    to: (n[n.len() - 2], n[n.len() - 1]),
                });
            }
            _ => (),
        }
    }
    if p.rects.is_empty() {
        return Err("no background".into())
    }
    p.area = p.rects.remove(0);
    Ok(p)
}

fn text(rng: &mut Rng, max: usize) -> String {
    const PARTS: &[&str] = &["<", ">", "&", "\"", "'", "&amp;", "&lt;", "</text>", "<!--", "-->", "]]>", "a", "xyz", " ", "  ", "é", "日本", "🦀", "#", "%", "{}", "\\", ";", "&#38;", "0", "<?", "?>", "_|_", "=", "/", "<rect", "\u{a0}"];
    let mut s = String::new();
    for _ in 0..rng.n(max + 1) {
        s.push_str(rng.pick(PARTS));
    }
    s
}

/// declared edges of the graph
struct Graph<P> {
    live: Vec<P>,
    nodes: HMap<P, DebugNode0<P>>,
}

#[derive(Clone)]
struct DebugNode0<P> {
    sources: Vec<(P, String)>,
    center: Vec<String>,
    sinks: Vec<(P, String)>,
}

/// strongly connected components by closure
fn scc<P: TP>(g: &Graph<P>, edges: &HMap<(P, P), (usize, usize)>) -> HMap<P, HSet<P>> {
    let mut out: HMap<P, Vec<P>> = HMap::default();
    for (u, v) in edges.keys() {
        out.entry(*u).or_default().push(*v);
    }
    let mut reach: HMap<P, HSet<P>> = HMap::default();
    for p in &g.live {
        let mut seen = HSet::default();
        let mut todo = vec![*p];
        while let Some(x) = todo.pop() {
            for y in out.get(&x).into_iter().flatten() {
                if seen.insert(*y) {
                    todo.push(*y);
                }
            }
        }
        reach.insert(*p, seen);
    }
    reach
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Who<P> {
    Node(P),
    StandIn(P),
    Invalid(P),
}

/// where things are, independent of the contents
fn geometry(cx: &mut Cx, pic: &Pic) -> R<(Vec<Vec<usize>>, Vec<(usize, usize)>)> {
    chk!(cx, C22, pic.area.within(&pic.view), "the view {:?} does not show the drawing area {:?}", pic.view, pic.area);
    for (i, r) in pic.rects.iter().enumerate() {
        chk!(cx, C22, r.w > 0 && r.h > 0 && r.within(&pic.area), "{r:?} is not in the drawing area {:?}", pic.area);
        for o in &pic.rects[..i] {
            chk!(cx, C22, !r.overlaps(o), "nodes overlap: {r:?} {o:?}");
        }
    }
    let find = |p: (i64, i64)| pic.rects.iter().position(|r| r.has(p));
    let mut texts = vec![vec![]; pic.rects.len()];
    for (k, t) in pic.texts.iter().enumerate() {
        let r = find((t.0, t.1));
        chk!(cx, C22, r.is_some(), "text {:?} is outside of all nodes", t.3);
        let Some(r) = r else { continue };
        chk!(cx, C22, t.2 >= 0 && pic.rects[r].has((t.0 + t.2, t.1)), "text {:?} sticks out of its node", t.3);
        texts[r].push(k);
    }
    let mut ends = vec![];
    for l in &pic.lines {
        let (a, b) = (find(l.from), find(l.to));
        chk!(cx, C22 | C21, a.is_some() && b.is_some(), "a line from {:?} to {:?} does not end at nodes", l.from, l.to);
        if let (Some(a), Some(b)) = (a, b) {
            ends.push((a, b));
        }
    }
    cx.ev(C22, "drawing_examined");
    if pic.rects.len() > 1 {
        cx.ev(C22, "several_nodes_placed");
    }
    Ok((texts, ends))
}

fn compare<P: TP>(cx: &mut Cx, g: &Graph<P>, svg: &str, unique: bool) -> R {
    let pic = match picture(svg) {
        Ok(p) => p,
        Err(m) => {
            chk!(cx, C22, false, "the SVG is not well formed: {m}");
            return Ok(())
        }
    };
    cx.n(C22);
    let (texts, ends) = geometry(cx, &pic)?;
    // all texts read back
    let mut want: HMap<String, i64> = HMap::default();
    let mut edges: HMap<(P, P), (usize, usize)> = HMap::default();
    let mut bad = 0;
    let mut hi = 0;
    for p in &g.live {
        let n = &g.nodes[p];
        for s in &n.center {
            *want.entry(s.clone()).or_default() += 1;
        }
        for (_, s) in n.sinks.iter().chain(n.sources.iter()) {
            if !s.is_empty() {
                *want.entry(s.clone()).or_default() += 1;
            }
        }
        for (q, _) in &n.sinks {
            if g.nodes.contains_key(q) {
                edges.entry((*p, *q)).or_default().0 += 1;
            } else {
                bad += 1;
            }
        }
        for (q, _) in &n.sources {
            if g.nodes.contains_key(q) {
                edges.entry((*q, *p)).or_default().1 += 1;
            } else {
                bad += 1;
            }
        }
    }
    for t in &pic.texts {
        *want.entry(t.3.clone()).or_default() -= 1;
    }
    for (s, n) in &want {
        chk!(cx, C21 | C22, *n <= 0, "the text {s:?} is missing");
    }
    for c in edges.values() {
        // a line per declaration, and the stand-ins of a broken edge are connected also
        hi += 2 * (c.0 + c.1);
    }
    hi += bad;
    let nl = pic.lines.len();
    chk!(cx, C21, nl >= edges.len() + bad && nl <= hi, "{nl} lines for {} edges", edges.len() + bad);
    if nl > 0 {
        cx.ev(C22, "lines_placed");
    }
    if !unique {
        return Ok(())
    }
    // which node is which
    let mut names: HMap<String, Who<P>> = HMap::default();
    for p in &g.live {
        names.insert(g.nodes[p].center[0].clone(), Who::Node(*p));
        names.insert(format!("{p:?}"), Who::StandIn(*p));
        for (q, _) in g.nodes[p].sinks.iter().chain(g.nodes[p].sources.iter()) {
            if !g.nodes.contains_key(q) {
                names.insert(format!("{q:?}(invalid)"), Who::Invalid(*q));
            }
        }
    }
    let mut who: Vec<Who<P>> = vec![];
    let mut at: HMap<P, usize> = HMap::default();
    for (r, ts) in texts.iter().enumerate() {
        let ids: Vec<Who<P>> = ts.iter().filter_map(|k| names.get(&pic.texts[*k].3)).copied().collect();
        chk!(cx, C21, ids.len() == 1, "a node with the texts {:?} is drawn, which is none of the graph", ts.iter().map(|k| &pic.texts[*k].3).collect::<Vec<_>>());
        let Some(w) = ids.first() else { return Ok(()) };
        match w {
            Who::Node(p) => {
                chk!(cx, C21, at.insert(*p, r).is_none(), "{p:?} is drawn twice");
                // with exactly its texts
                let n = &g.nodes[p];
                let mut l: Vec<&String> = n.center.iter().chain(n.sinks.iter().chain(n.sources.iter()).map(|x| &x.1).filter(|s| !s.is_empty())).collect();
                let mut d: Vec<&String> = ts.iter().map(|k| &pic.texts[*k].3).collect();
                // the center is in order, from top to bottom
                let c: Vec<&String> = {
                    let mut v: Vec<(i64, &String)> = ts.iter().map(|k| (pic.texts[*k].1, &pic.texts[*k].3)).filter(|x| n.center.contains(x.1)).collect();
                    v.sort_by_key(|x| x.0);
                    v.into_iter().map(|x| x.1).collect()
                };
                chk!(cx, C21, c == n.center.iter().collect::<Vec<_>>(), "the center of {p:?} reads {c:?} instead of {:?}", n.center);
                l.sort();
                d.sort();
                chk!(cx, C21, l == d, "{p:?} is drawn with {d:?} instead of {l:?}");
            }
            _ => {
                chk!(cx, C21, ts.len() == 1, "a stand-in with more texts");
            }
        }
        who.push(*w);
    }
    chk!(cx, C21, at.len() == g.live.len(), "{} of {} nodes are drawn", at.len(), g.live.len());
    // every line is an edge
    let mut direct: HMap<(P, P), usize> = HMap::default();
    let mut broken: HMap<(P, P), usize> = HMap::default();
    let mut arrive: Vec<P> = vec![];
    let mut badl: HMap<(P, P, bool), i64> = HMap::default();
    for (a, b) in &ends {
        match (who[*a], who[*b]) {
            (Who::Node(u), Who::Node(v)) => {
                chk!(cx, C21, edges.contains_key(&(u, v)), "a line from {u:?} to {v:?} is drawn, which is no edge");
                *direct.entry((u, v)).or_default() += 1;
            }
            (Who::Node(u), Who::StandIn(v)) => {
                chk!(cx, C21, edges.contains_key(&(u, v)), "a line from {u:?} to a stand-in for {v:?} is drawn, which is no edge");
                *broken.entry((u, v)).or_default() += 1;
            }
            (Who::StandIn(v), Who::Node(w)) if v == w => arrive.push(v),
            (Who::StandIn(u), Who::Node(v)) => {
                chk!(cx, C21, edges.contains_key(&(u, v)), "a line from a stand-in for {u:?} to {v:?} is drawn, which is no edge");
                *broken.entry((u, v)).or_default() += 1;
            }
            (Who::Node(u), Who::Invalid(q)) => *badl.entry((u, q, true)).or_default() += 1,
            (Who::Invalid(q), Who::Node(u)) => *badl.entry((u, q, false)).or_default() += 1,
            (x, y) => chk!(cx, C21, false, "a line from {x:?} to {y:?} is drawn"),
        }
    }
    let reach = scc(g, &edges);
    for ((u, v), (s, t)) in &edges {
        let d = direct.get(&(*u, *v)).copied().unwrap_or(0);
        let b = broken.get(&(*u, *v)).copied().unwrap_or(0);
        chk!(cx, C21, d + b > 0, "the edge from {u:?} to {v:?} is not drawn");
        let cyc = reach[v].contains(u);
        if !cyc {
            chk!(cx, C21, b == 0, "the edge from {u:?} to {v:?} is on no cycle but broken");
            chk!(cx, C21, d >= *s.max(t) && d <= s + t, "{d} lines from {u:?} to {v:?}, which is declared {s} and {t} times");
            cx.ev(C21, "edge_drawn");
        } else {
            chk!(cx, C21, b == 0 || arrive.contains(v) || d > 0 || broken.contains_key(&(*u, *v)), "nothing arrives at {v:?} from {u:?}");
            cx.ev(C21, if b > 0 { "cycle_edge_broken" } else { "cycle_edge_drawn" });
        }
    }
    for v in &arrive {
        chk!(cx, C21, broken.keys().any(|(_, w)| w == v), "a stand-in leads to {v:?} though no edge to it is broken");
    }
    for p in &g.live {
        let n = &g.nodes[p];
        for (q, _) in &n.sinks {
            if !g.nodes.contains_key(q) {
                *badl.entry((*p, *q, true)).or_default() -= 1;
            }
        }
        for (q, _) in &n.sources {
            if !g.nodes.contains_key(q) {
                *badl.entry((*p, *q, false)).or_default() -= 1;
            }
        }
    }
    for ((u, q, out), n) in &badl {
        chk!(cx, C21, *n == 0, "{n} lines too many {} {u:?} {} the invalid {q:?}", if *out { "from" } else { "to" }, if *out { "to" } else { "from" });
        cx.ev(C21, "invalid_edge_drawn");
    }
    // the drawn graph is acyclic
    let mut indeg = vec![0; who.len()];
    for (_, b) in &ends {
        indeg[*b] += 1;
    }
    let mut todo: Vec<usize> = (0..who.len()).filter(|i| indeg[*i] == 0).collect();
    let mut done = 0;
    while let Some(x) = todo.pop() {
        done += 1;
        for (a, b) in &ends {
            if *a == x {
                indeg[*b] -= 1;
                if indeg[*b] == 0 {
                    todo.push(*b);
                }
            }
        }
    }
    chk!(cx, C21, done == who.len(), "the drawn graph has a cycle");
    // labels are at the lines they belong to
    let is = |w: Who<P>, p: P| matches!(w, Who::Node(x) | Who::StandIn(x) | Who::Invalid(x) if x == p);
    for p in &g.live {
        let n = &g.nodes[p];
        let r = at[p];
        for (k, (q, s)) in n.sinks.iter().chain(n.sources.iter()).enumerate() {
            if s.is_empty() {
                continue
            }
            let sink = k < n.sinks.len();
            let Some(t) = texts[r].iter().map(|k| &pic.texts[*k]).find(|t| t.3 == *s) else { continue };
            let x = t.0 + t.2 / 2;
            let mut ok = false;
            for (i, l) in pic.lines.iter().enumerate() {
                let (a, b) = ends[i];
                ok |= if sink { a == r && l.from.0 == x && is(who[b], *q) } else { b == r && l.to.0 == x && (is(who[a], *q) || is(who[a], *p)) };
            }
            chk!(cx, C21, ok, "the annotation {s:?} of {p:?} has no line {} {q:?}", if sink { "to" } else { "from" });
            cx.ev(C21, "annotation_connected");
        }
    }
    cx.ev(C21, "graph_compared");
    Ok(())
}

pub fn case<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    let unique = rng.p(3, 4);
    let mut a: Arena<P, DebugNode<P>> = Arena::new();
    let n = *rng.pick(&[0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 20]);
    let n = if rng.p(1, 60) { rng.range(20, 60) } else { n };
    let mut live: Vec<P> = vec![];
    let mut dead: Vec<P> = vec![];
    for _ in 0..n {
        live.push(a.insert(DebugNode::default()));
        if rng.p(1, 6) {
            let k = rng.n(live.len());
            let p = live.swap_remove(k);
            a.remove(p);
            dead.push(p);
        }
    }
    // without generations the slots may have been used again
    dead.retain(|p| !a.contains(*p));
    for i in 1..4 {
        let p = P::make(n + i, 2);
        if !a.contains(p) {
            dead.push(p);
        }
    }
    if !a.contains(P::invalid()) {
        dead.push(P::invalid());
    }
    let shape = rng.n(8);
    let pbad = *rng.pick(&[0, 0, 0, 5, 30]);
    let mut decl: HMap<P, DebugNode0<P>> = live.iter().map(|p| (*p, DebugNode0 { sources: vec![], center: vec![], sinks: vec![] })).collect();
    let m = live.len();
    let mut es: Vec<(usize, usize)> = vec![];
    if m > 0 {
        match shape {
            // trees and DAGs
            0 | 1 => {
                for i in 1..m {
                    for _ in 0..(if shape == 0 { 1 } else { rng.n(4) }) {
                        es.push((rng.n(i), i));
                    }
                }
            }
            // a cycle, perhaps with a root and a tail
            2 => {
                let k = rng.range(1, m);
                for i in 0..k {
                    es.push((i, (i + 1) % k));
                }
                for i in k..m {
                    if rng.p(1, 2) {
                        es.push((i, rng.n(k)));
                    } else {
                        es.push((rng.n(k), i));
                    }
                }
            }
            // sparse and dense digraphs
            3 | 4 | 5 => {
                for _ in 0..rng.n(if shape == 5 { 3 * m + 1 } else { m + m / 2 + 1 }) {
                    es.push((rng.n(m), rng.n(m)));
                }
            }
            // multi edges and self loops
            6 => {
                for _ in 0..rng.range(1, 4) {
                    let (x, y) = (rng.n(m), rng.n(m));
                    for _ in 0..rng.range(1, 4) {
                        es.push(if rng.p(3, 4) { (x, y) } else { (y, x) });
                    }
                }
            }
            // islands
            _ => {
                for i in 0..m {
                    if i % 4 != 0 && rng.p(2, 3) {
                        es.push((i - 1, i));
                    }
                    if i % 4 == 3 && rng.p(1, 3) {
                        es.push((i, i - 3));
                    }
                }
            }
        }
    }
    if rng.p(1, 2) {
        rng.shuffle(&mut es);
    }
    let how = rng.n(4);
    let mut label = 0;
    let pl = *rng.pick(&[0, 2, 5]);
    let mut lab = |rng: &mut Rng| -> String {
        if rng.n(6) >= pl {
            return String::new()
        }
        label += 1;
        if unique { format!("{}e{label}:{}", text(rng, 1), text(rng, 2)) } else { text(rng, 3) }
    };
    for (x, y) in es {
        let (u, v) = (live[x], live[y]);
        let h = if how == 3 { rng.n(3) } else { how };
        if h == 0 || h == 2 {
            let l = lab(rng);
            decl.get_mut(&u).unwrap().sinks.push((v, l));
        }
        if h == 1 || h == 2 {
            let l = lab(rng);
            decl.get_mut(&v).unwrap().sources.push((u, l));
        }
    }
    let mut first_bad = 0;
    if !dead.is_empty() {
        for p in &live {
            while rng.n(100) < pbad {
                let q = *rng.pick(&dead);
                let l = lab(rng);
                let d = decl.get_mut(p).unwrap();
                let v = if rng.p(1, 2) { &mut d.sinks } else { &mut d.sources };
                let at = rng.n(v.len() + 1);
                v.insert(at, (q, l));
                first_bad += 1;
            }
        }
    }
    let own = rng.p(1, 4);
    let link = !own && rng.p(1, 4);
    for (i, p) in live.iter().enumerate() {
        let d = decl.get_mut(p).unwrap();
        if unique {
            d.center.push(format!("{}n{i}:{}", text(rng, 1), text(rng, 2)));
            for j in 0..rng.n(3) {
                d.center.push(format!("{}c{i}.{j}:{}", text(rng, 1), text(rng, 2)));
            }
        } else {
            for _ in 0..rng.n(4) {
                d.center.push(text(rng, 4));
            }
        }
        a[*p] = DebugNode::new(d.sources.clone(), d.center.clone(), d.sinks.clone());
        if own {
            d.center.push(format!("this {p:?}"));
        }
    }
    let g = Graph {
        live,
        nodes: decl,
    };
    let strict = rng.p(1, 4);
    cx.op(C21 | C22, h(&format!("{a:?}{strict}{own}{link}")), || format!("render {a:?} strict={strict}"));
    cx.state(h(&format!("{a:?}")));
    let r = if own {
        let mut b: Arena<P, Own<P>> = Arena::new();
        b.clone_from_with(&a, |_, t| Own(t.clone()));
        render_to_svg(&b, strict)
    } else if link {
        let mut b: Arena<P, Link<P, DebugNode<P>>> = Arena::new();
        b.clone_from_with(&a, |_, t| Link::new((None, None), t.clone()));
        render_to_svg(&b, strict)
    } else {
        render_to_svg(&a, strict)
    };
    match r {
        Err(RenderError::InvalidPtr(p)) => {
            let named = g.live.iter().any(|x| g.nodes[x].sinks.iter().chain(g.nodes[x].sources.iter()).any(|e| e.0 == p));
            chk!(cx, C21, strict && first_bad > 0 && named && !g.nodes.contains_key(&p), "{p:?} was reported as invalid, strict={strict}");
            cx.ev(C21, "invalid_reported");
            return Ok(())
        }
        Err(e) => {
            chk!(cx, C21, false, "{e:?}");
        }
        Ok(svg) => {
            chk!(cx, C21, !strict || first_bad == 0, "an invalid Ptr was not reported");
            compare(cx, &g, &svg, unique)?;
            if !cx.miri && !own && !link && rng.p(1, 20) {
                to_file(cx, rng, &a, strict, &svg)?;
            }
        }
    }
    Ok(())
}

/// in a directory of its own that is removed again
fn to_file<P: TP>(cx: &mut Cx, rng: &mut Rng, a: &Arena<P, DebugNode<P>>, strict: bool, svg: &str) -> R {
    let dir = std::env::temp_dir().join(format!("mon-render-{}", std::process::id()));
    if std::fs::create_dir(&dir).is_err() {
        return Ok(())
    }
    let f = dir.join("out.svg");
    let old = rng.p(1, 2);
    if old {
        let _ = std::fs::write(&f, "x".repeat(rng.n(2 * svg.len())));
    }
    let r = catch(|| render_to_svg_file(a, strict, f.clone()));
    let got = std::fs::read_to_string(&f);
    let miss = catch(|| render_to_svg_file(a, strict, dir.join("none").join("out.svg")));
    let _ = std::fs::remove_file(&f);
    let _ = std::fs::remove_dir(&dir);
    chk!(cx, C22, matches!(r, Ok(Ok(()))) && got.ok().as_deref() == Some(svg), "the file does not hold the rendered SVG, there was {} file before", if old { "a" } else { "no" });
    chk!(cx, C22, matches!(miss, Ok(Err(RenderError::IoError(_)))), "writing into a missing directory was not reported");
    cx.ev(C22, "file_written");
    Ok(())
}
