"""A counterexample of stream.py as a program with types of the sizes and alignments found, for /repo's crevice."""

CHUNK = 1 << 18


def program(sc, numbers, start, history, ops):
    """The scenario from a position reached by start bytes. It prints BAD lines where the code differs from the
    rules, and DONE at its end."""
    l, kind, fail = sc["l"], sc["kind"], numbers["fail"]
    sizes, rust, align = list(numbers["size"]), numbers["rust"], list(sc["align"]) + [1]
    sizes[3] = start % CHUNK if kind == 'writer' else start
    hints = numbers.get("hints", {})
    up = lambda i: max(256, align[i])
    o = '''#![allow(dead_code, warnings)]
use crevice::std140::{self, AsStd140, Std140, WriteStd140};
use crevice::std430::{self, AsStd430, Std430, WriteStd430};
use std::{cell::RefCell, io::{self, Write}, rc::Rc};

fn pattern(id: u64, j: usize) -> u8 { ((id as usize * 31 + j * 7) % 255 + 1) as u8 }
const CHUNK: usize = 1 << 18;
fn bad(s: String) { println!("BAD {s}"); }

#[derive(Default)]
struct State { plan: Vec<u8>, pos: u64, fail: Option<u64>, keep_from: u64, kept: Vec<u8> }
struct Sink(Rc<RefCell<State>>);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        let room = s.fail.map_or(u64::MAX, |f| f - s.pos);
        if b.is_empty() { return Ok(0); }
        if room == 0 { return Err(io::Error::new(io::ErrorKind::@KIND@, "sink failed")); }
        let mut n = (b.len() as u64).min(room) as usize;
        if !s.plan.is_empty() {
            match s.plan.remove(0) {
                1 => n = (n + 1) / 2,
                2 => n = 1,
                3 => return Err(io::ErrorKind::Interrupted.into()),
                _ => {}
            }
        }
        if s.pos + n as u64 > s.keep_from {
            let skip = s.keep_from.saturating_sub(s.pos) as usize;
            s.kept.extend_from_slice(&b[skip..n]);
        }
        s.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
struct It<T>(std::vec::IntoIter<T>, (usize, Option<usize>));
impl<T> Iterator for It<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.1 }
}
struct Pair(F1, F2);
struct Var(u8, F1, F2);
/// (alignment, size, value)
type Item = (u64, u64, u64);
fn place(mut cur: u64, items: &[Item], want: &mut Vec<u8>) -> (u64, u64) {
    let mut first = None;
    for &(a, s, id) in items {
        while cur % a != 0 { cur += 1; want.push(0); }
        first.get_or_insert(cur);
        want.extend((0..s as usize).map(|j| pattern(id, j)));
        cur += s;
    }
    (first.unwrap_or(cur), cur)
}
/// Whether to go on.
fn judge(what: &str, r: io::Result<usize>, items: &[Item], from: u64, len: usize, state: &Rc<RefCell<State>>) -> bool {
    let s = state.borrow();
    let mut want = vec![];
    let (first, end) = place(from, items, &mut want);
    let len = len as u64;
    match r {
        Ok(at) => {
            if s.fail.map_or(false, |f| f < end) { bad(format!("{what}: the sink failed but no error is reported")); }
            if at as u64 != first { bad(format!("{what}: returned offset {at}, should be {first}")); }
            if len != end { bad(format!("{what}: length {len}, should be {end}")); }
            if s.pos != end { bad(format!("{what}: {} bytes emitted, should be {end}", s.pos)); }
            if s.kept != want {
                let k = s.kept.iter().zip(&want).take_while(|(a, b)| a == b).count();
                bad(format!("{what}: byte {} is {:?}, should be {:?}", from + k as u64, s.kept.get(k), want.get(k)));
            }
            true
        }
        Err(e) => {
            if e.kind() != io::ErrorKind::@KIND@ || e.to_string() != "sink failed" { bad(format!("{what}: error {e:?}, the sink's was another")); }
            if !s.fail.map_or(false, |f| f < end) { bad(format!("{what}: error although the sink takes everything")); }
            if s.pos != s.fail.unwrap_or(end) { bad(format!("{what}: {} bytes emitted before the failure at {:?}", s.pos, s.fail)); }
            if !want.starts_with(&s.kept) { bad(format!("{what}: what was emitted before the failure is not a prefix of what should be")); }
            if len < from || len > s.pos { bad(format!("{what}: length {len} after an error, the sink has taken {} and the length was {from}", s.pos)); }
            false
        }
    }
}
'''
    o += f'''
#[derive(Clone, Copy)] #[repr(C)] struct Chunk([u8; CHUNK]);
impl std::fmt::Debug for Chunk {{ fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ Ok(()) }} }}
unsafe impl crevice::internal::bytemuck::Zeroable for Chunk {{}}
unsafe impl crevice::internal::bytemuck::Pod for Chunk {{}}
unsafe impl Std{l} for Chunk {{ const ALIGNMENT: usize = 1; }}
'''
    for i in range(4):
        o += f'''
#[derive(Clone, Copy)] #[repr(C, align({rust[i] if i < 3 else 1}))] struct O{i}([u8; {sizes[i]}]);
impl std::fmt::Debug for O{i} {{ fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ Ok(()) }} }}
unsafe impl crevice::internal::bytemuck::Zeroable for O{i} {{}}
unsafe impl crevice::internal::bytemuck::Pod for O{i} {{}}
unsafe impl Std{l} for O{i} {{ const ALIGNMENT: usize = {align[i]}; }}
'''
        if i < 3:
            o += f'''
struct F{i}(u64);
impl O{i} {{ fn of(id: u64) -> O{i} {{ let mut o = O{i}([0; {sizes[i]}]); for j in 0..{sizes[i]} {{ o.0[j] = pattern(id, j); }} o }} }}
impl AsStd{l} for F{i} {{
    type Output = O{i};
    fn as_std{l}(&self) -> O{i} {{ O{i}::of(self.0) }}
    fn from_std{l}(val: O{i}) -> Self {{ F{i}((0..255).find(|&id| (0..{sizes[i]}).all(|j| val.0[j] == pattern(id, j))).unwrap_or(9999)) }}
}}
'''
        else:
            o += f'''
struct F3;
impl AsStd{l} for F3 {{
    type Output = O3;
    fn as_std{l}(&self) -> O3 {{ unimplemented!() }}
    fn from_std{l}(val: O3) -> Self {{ unimplemented!() }}
}}
'''
    o += f'''
impl WriteStd{l} for Pair {{
    fn write_std{l}<W: Write>(&self, w: &mut std{l}::Writer<W>) -> io::Result<usize> {{
        let at = w.write(&self.0)?;
        w.write(&self.1)?;
        Ok(at)
    }}
}}
impl WriteStd{l} for Var {{
    fn write_std{l}<W: Write>(&self, w: &mut std{l}::Writer<W>) -> io::Result<usize> {{
        let mut at = w.len();
        if self.0 & 1 != 0 {{ at = w.write(&self.1)?; }}
        if self.0 & 2 != 0 {{
            let b = w.write(&self.2)?;
            if self.0 & 1 == 0 {{ at = b; }}
        }}
        Ok(at)
    }}
}}
fn run(plan: &[u8]) {{
'''
    ids = iter(range(1, 200))

    def value(op, i, n, tag):
        """(expression for the value, how it is written, items)"""
        item = lambda i, d, dyn=False: (up(i) if dyn else align[i], sizes[i], d)
        some = [next(ids) for _ in range(max(1, n if op in ("slice", "old", "iter", "dyns") else 1))]
        if op in ("slice", "old", "iter", "dyns"): some = some[:n]
        if op == "write": return f"F{i}({some[0]})", "w.write(&x)", [item(i, some[0])]
        if op == "direct": return f"O{i}::of({some[0]})", f"w.write_std{l}(&x)", [item(i, some[0])]
        if op == "out": return f"O{i}::of({some[0]})", "w.write(&x)", [item(i, some[0])]
        xs = f"<[F{i}; {n}]>::from([{', '.join(f'F{i}({d})' for d in some)}])"
        if op == "slice": return xs, "w.write(&x[..])", [item(i, d) for d in some]
        if op == "old": return xs, "w.write_slice(&x[..])", [item(i, d) for d in some]
        if op == "iter":
            low, high, known = hints.get(f"low_{tag}", 0), hints.get(f"high_{tag}", n), hints.get(f"known_{tag}", False)
            return f"It::<F{i}>(vec![{', '.join(f'F{i}({d})' for d in some)}].into_iter(), ({low}, {f'Some({high})' if known else 'None'}))", "w.write_iter(x)", [item(i, d) for d in some]
        if op == "dyn": return f"std140::DynamicUniform(F{i}({some[0]}))", "w.write(&x)", [item(i, some[0], True)]
        if op == "dyns": return f"<[std140::DynamicUniform<F{i}>; {n}]>::from([{', '.join(f'std140::DynamicUniform(F{i}({d}))' for d in some)}])", "w.write(&x[..])", [item(i, d, True) for d in some]
        if op in ("vars", "itervars"):
            kinds = [i >> 2 * k & 3 for k in range(n)]
            more = [(next(ids), next(ids)) for _ in kinds]
            items = [x for c, (a, b) in zip(kinds, more) for x in (item(1, a), item(2, b))[0 if c & 1 else 1:2 if c & 2 else 1]]
            # An item of no bytes where an element begins that writes nothing.
            if kinds[0] == 0: items = [(1, 0, 0)] + items
            vs = [f"Var({c}, F1({a}), F2({b}))" for c, (a, b) in zip(kinds, more)]
            if op == "vars": return f"<[Var; {n}]>::from([{', '.join(vs)}])", "w.write(&x[..])", items
            low, high, known = hints.get(f"low_{tag}", 0), hints.get(f"high_{tag}", n), hints.get(f"known_{tag}", False)
            return f"It::<Var>(vec![{', '.join(vs)}].into_iter(), ({low}, {f'Some({high})' if known else 'None'}))", "w.write_iter(x)", items
        n = 1 if op == "pair" else n
        more = [(next(ids), next(ids)) for _ in range(n)]
        items = [x for a, b in more for x in (item(1, a), item(2, b))]
        vs = [f"Pair(F1({a}), F2({b}))" for a, b in more]
        if op == "pair": return vs[0], "w.write(&x)", items
        if op == "iterpairs":
            low, high, known = hints.get(f"low_{tag}", 0), hints.get(f"high_{tag}", n), hints.get(f"known_{tag}", False)
            return f"It::<Pair>(vec![{', '.join(vs)}].into_iter(), ({low}, {f'Some({high})' if known else 'None'}))", "w.write_iter(x)", items
        return f"<[Pair; {n}]>::from([{', '.join(vs)}])", "w.write(&x[..])", items

    lst = lambda items: "&[" + ", ".join(f"({a}, {s}, {d})" for a, s, d in items) + "]"
    new = f'''    let state = Rc::new(RefCell::new(State::default()));
    let mut w = std{l}::Writer::new(Sink(state.clone()));
    if w.len() != 0 {{ bad(format!("a fresh writer's length is {{}}", w.len())); }}
'''
    if kind == "writer":
        o += new
        if history != "fresh":
            o += f'''    state.borrow_mut().keep_from = {start};
    let chunk = Chunk([0; CHUNK]);
    for _ in 0..{start}u64 / CHUNK as u64 {{ w.write_std{l}(&chunk).unwrap(); }}
    let r = w.write_std{l}(&O3([0; {start % CHUNK}]));
    if !judge("the first values", r.map(|at| at + {start % CHUNK}), &[(1, 0, 0)], {start}, w.len(), &state) {{ return; }}
'''
            if history == "more":
                o += f'''    let from = w.len() as u64;
    let r = w.write(&F2(100));
    judge("the second value", r, &[({align[2]}, {sizes[2]}, 100)], from, w.len(), &state);
'''
        if fail is not None:
            o += f"    if state.borrow().pos > {fail} {{ return; }}     // not a position that was asked for\n    state.borrow_mut().fail = Some({fail});\n"
        for k, (op, i, n) in enumerate(ops):
            x, how, items = value(op, i, n, f"x{sc['ops'].index((op, i, n), k) if (op, i, n) in sc['ops'][k:] else k}_")
            o += f'''    let from = w.len() as u64;
    {{ let mut s = state.borrow_mut(); s.keep_from = s.pos; s.kept.clear(); s.plan = plan.to_vec(); }}
    let x = {x};
    let r = {how};
    if !judge("{op} {k}", r, {lst(items)}, from, w.len(), &state) {{ println!("DONE"); return; }}
'''
    elif kind == "size":
        for k, (op, i, n) in enumerate(ops):
            x, how, items = value(op, i, n, f"x{k}_")
            o += f'''{{
{new}    let x = {x};
    let size = WriteStd{l}::std{l}_size({"&x[..]" if op in ("slice", "dyns", "pairs", "vars") else "&x"});
    let (_, end) = place(0, {lst(items)}, &mut vec![]);
    if size as u64 != end {{ bad(format!("{op} {k}: predicted size {{size}}, should be {{end}}")); }}
'''
            if op in ("write", "dyn"):
                o += f'''    let size = {f"<F{i} as AsStd{l}>" if op == "write" else f"<std140::DynamicUniform<F{i}> as AsStd140>"}::std{l}_size_static();
    if size as u64 != end {{ bad(format!("{op} {k}: static size {{size}}, should be {{end}}")); }}
'''
            if op == "write":
                o += f'''    let n = Std{l}::as_bytes(&O{i}::of(1)).len();
    if n as u64 != end {{ bad(format!("{op} {k}: byte view of {{n}} bytes, should be {{end}}")); }}
'''
            o += f'''    let r = {how};
    judge("{op} {k}", r, {lst(items)}, 0, w.len(), &state);
}}
'''
    elif kind == "sizer":
        o += f'''    let mut s = std{l}::Sizer::new();
    if s.len() != 0 {{ bad(format!("a fresh sizer's length is {{}}", s.len())); }}
    let mut cur = 0u64;
    let mut add = |what: &str, at: usize, len: usize, a: u64, size: u64| {{
        while cur % a != 0 {{ cur += 1; }}
        if at as u64 != cur {{ bad(format!("{{what}}: offset {{at}}, should be {{cur}}")); }}
        cur += size;
        if len as u64 != cur {{ bad(format!("{{what}}: length {{len}}, should be {{cur}}")); }}
        cur = len as u64;
    }};
'''
        for k, (op, i, n) in enumerate(ops):
            t = f"std140::DynamicUniform<F{i}>" if op == "dyn" else f"F{i}"
            o += f'    let at = s.add::<{t}>();\n    add("{op} {k}", at, s.len(), {up(i) if op == "dyn" else align[i]}, {sizes[i]});\n'
    elif kind == "dynamic":
        o += f'''    type D = std140::DynamicUniform<F0>;
    type E = <D as AsStd140>::Output;
    if <E as Std140>::ALIGNMENT != {up(0)} {{ bad(format!("alignment {{}}, should be {up(0)}", <E as Std140>::ALIGNMENT)); }}
    if std::mem::size_of::<E>() != {sizes[0]} {{ bad(format!("size {{}}, should be {sizes[0]}", std::mem::size_of::<E>())); }}
    let e = std140::DynamicUniform(F0(7)).as_std140();
    let want: Vec<u8> = (0..{sizes[0]}).map(|j| pattern(7, j)).collect();
    if Std140::as_bytes(&e) != &want[..] {{ bad(format!("bytes {{:?}}, should be {{:?}}", Std140::as_bytes(&e), want)); }}
    let id = F0::from_std140(O0::of(7)).0;
    let back = <D as AsStd140>::from_std140(e);
    if back.0.0 != id {{ bad(format!("decoded {{}}, should be {{id}}", back.0.0)); }}
'''
    # What the sink does at the first single writes of each operation: all, half, one byte, or interrupted.
    plans = "for i in 0..256u32 { run(&[i as u8 & 3, (i >> 2) as u8 & 3, (i >> 4) as u8 & 3, (i >> 6) as u8]); }" if numbers.get("shorts") else "run(&[]);"
    return o.replace("@KIND@", numbers.get("error", "Other")) + '    println!("DONE");\n}\nfn main() { ' + plans + ' }\n'
