//! C22: every encoding parses by the metadata of its type alone.
use crate::{common::*, gen::*, ops::*, sym::*, types::*};
use steit::{log::LogEntry, meta::*, rt::*, ser::*, state::*, types::*, wire_fmt::*};

/// The types the parameters of a message stand for.
type Env<'a> = &'a [(&'static str, Ty<'a>)];

#[derive(Clone, Copy)]
struct Ty<'a> {
    meta: &'static FieldTypeMeta,
    env: Env<'a>,
}

/// Messages reachable from a type, by name, as the metadata links them.
fn collect(link: &'static MetaLink, seen: &mut Vec<&'static MetaLink>) {
    if seen.iter().any(|l| std::ptr::eq(*l, link)) {
        return;
    }
    seen.push(link);
    for l in (link.links)() {
        collect(l, seen);
    }
}

struct Parser {
    links: Vec<&'static MetaLink>,
}

impl Parser {
    fn message(&self, name: &str) -> &'static MessageMeta {
        let found = self.links.iter().find_map(|l| l.msg.as_ref().filter(|m| m.rust_name() == name));
        check(found.is_some(), 1);
        found.unwrap()
    }

    fn resolve<'a>(&self, t: Ty<'a>) -> Ty<'a> {
        match t.meta {
            FieldTypeMeta::TypeParam(p) => {
                let found = t.env.iter().find(|(n, _)| n == p);
                check(found.is_some(), 2);
                self.resolve(found.unwrap().1)
            }
            // A box is what is in it.
            FieldTypeMeta::Type(TypeMeta::Ref(name, args)) if name.rust == "Box" => {
                check(args.len() == 1, 3);
                self.resolve(Ty { meta: &args[0], env: t.env })
            }
            _ => t,
        }
    }

    fn wire(&self, t: Ty) -> u8 {
        match self.resolve(t).meta {
            FieldTypeMeta::Type(TypeMeta::Primitive(_, WireType::Varint)) => 0,
            _ => 2,
        }
    }

    /// One item of the type, with a size in front if it is sized.
    fn item(&self, t: Ty, b: &[u8], i: &mut usize) {
        let start = *i;
        if self.wire(t) == 0 {
            leb(b, i);
            self.value(t, &b[start..*i]);
        } else {
            let n = leb(b, i) as usize;
            check(n <= b.len() - *i, 4);
            *i += n;
            self.value(t, &b[*i - n..*i]);
        }
    }

    fn value(&self, t: Ty, b: &[u8]) {
        let t = self.resolve(t);
        let ty = match t.meta {
            FieldTypeMeta::Type(ty) => ty,
            _ => unreachable!(),
        };
        match ty {
            TypeMeta::Primitive(name, WireType::Varint) => {
                let mut i = 0;
                let v = leb(b, &mut i);
                check(i == b.len(), 5);
                let bits = match name.rust {
                    "bool" => 1,
                    "u8" | "i8" => 8,
                    "u16" | "i16" => 16,
                    "u32" | "i32" => 32,
                    _ => { check(name.rust == "u64" || name.rust == "i64", 6); 64 }
                };
                check(bits == 64 || v >> bits == 0, 7);
            }
            TypeMeta::Primitive(name, WireType::Sized) => check(name.rust == "String" && std::str::from_utf8(b).is_ok(), 8),
            TypeMeta::Ref(name, args) => {
                let arg = |n: usize| Ty { meta: &args[n], env: t.env };
                let mut i = 0;
                match name.rust {
                    "Bytes" => check(args.is_empty(), 9),
                    "Vec" | "List" => {
                        check(args.len() == 1, 10);
                        while i < b.len() {
                            self.item(arg(0), b, &mut i);
                        }
                    }
                    "Option" => {
                        check(args.len() == 1, 11);
                        if !b.is_empty() {
                            self.item(arg(0), b, &mut i);
                            check(i == b.len(), 12);
                        }
                    }
                    "Map" => {
                        // The key comes first where the metadata of a field spells it out.
                        check(args.len() == 1 || args.len() == 2, 13);
                        for (_, wire, payload) in walk(b) {
                            check(wire == self.wire(arg(args.len() - 1)), 14);
                            self.value(arg(args.len() - 1), &payload);
                        }
                    }
                    _ => {
                        let msg = self.message(name.rust);
                        let params = match msg { MessageMeta::Struct(m) => m.type_params, MessageMeta::Enum(m) => m.type_params };
                        check(params.len() == args.len(), 15);
                        let env: Vec<_> = params.iter().enumerate().map(|(n, p)| (*p, arg(n))).collect();
                        match msg {
                            MessageMeta::Struct(m) => self.fields(m, &env, b),
                            MessageMeta::Enum(m) => {
                                if m.variants.iter().any(|v| v.tag == 0) && b.is_empty() {
                                    return;
                                }
                                let tag = leb(b, &mut i);
                                let v = m.variants.iter().find(|v| v.tag as u64 == tag);
                                check(v.is_some(), 16);
                                self.fields(&v.unwrap().ty, &env, &b[i..]);
                            }
                        }
                    }
                }
            }
        }
    }

    fn fields(&self, m: &StructMeta, env: Env, b: &[u8]) {
        for (field, wire, payload) in walk(b) {
            let f = m.fields.iter().find(|f| f.tag == field);
            check(f.is_some(), 17);
            let t = Ty { meta: f.unwrap().ty, env };
            check(wire == self.wire(t), 18);
            self.value(t, &payload);
        }
    }
}

fn parse<T: Serialize + HasMeta>(v: T) {
    let mut links = Vec::new();
    collect(T::LINK, &mut links);
    let p = Parser { links };
    let b = v.to_bytes();
    observe_bytes(&b);
    let meta = FieldTypeMeta::Type(T::TYPE);
    // The parser wants static metadata; it does not outlive this function.
    let meta: &'static FieldTypeMeta = unsafe { &*(&meta as *const _) };
    p.value(Ty { meta, env: &[] }, &b);
    cover(1);
}

/// Distinct numbers and names, in order, as declared.
fn declared(m: &StructMeta, name: &str, params: &[&str], fields: &[(&str, u32, &str)]) {
    check(m.name.rust == name && m.type_params == params, 30);
    check(m.fields.len() == fields.len(), 31);
    for (f, (name, tag, ty)) in m.fields.iter().zip(fields) {
        check(f.name.rust == *name && f.tag == *tag, 32);
        let mut s = String::new();
        show(f.ty, &mut s);
        check(s == *ty, 33);
    }
}

fn show(t: &FieldTypeMeta, s: &mut String) {
    match t {
        FieldTypeMeta::TypeParam(p) => { s.push('\''); s.push_str(p); }
        FieldTypeMeta::Type(TypeMeta::Primitive(n, _)) => s.push_str(n.rust),
        FieldTypeMeta::Type(TypeMeta::Ref(n, args)) => {
            s.push_str(n.rust);
            for a in args.iter() {
                s.push(' ');
                show(a, s);
            }
        }
    }
}

fn st<T: HasMeta>() -> &'static StructMeta {
    match T::LINK.msg.as_ref() {
        Some(MessageMeta::Struct(m)) => m,
        _ => panic!(),
    }
}

fn en<T: HasMeta>() -> &'static EnumMeta {
    match T::LINK.msg.as_ref() {
        Some(MessageMeta::Enum(m)) => m,
        _ => panic!(),
    }
}

fn variants(m: &EnumMeta, name: &str, params: &[&str], tags: &[(&str, u32)]) {
    check(m.name.rust == name && m.type_params == params && m.variants.len() == tags.len(), 34);
    for (v, (name, tag)) in m.variants.iter().zip(tags) {
        check(v.ty.name.rust == *name && v.tag == *tag && v.default() == (*tag == 0), 35);
    }
}

harness! {
    c22_u64 => { parse(u64_()) }
    c22_i8 => { parse(i8_()) }
    c22_i16 => { parse(i16_()) }
    c22_i32 => { parse(i32_()) }
    c22_i64 => { parse(i64_()) }
    c22_bool => { parse(bool_()) }
    c22_string => { parse(string(2)) }
    c22_vec => { parse(vec_of(2, u16_)) }
    c22_vec_string => { parse(vec_of(2, || string(1))) }
    c22_opt => { parse(opt(|| opt(i16_))) }
    c22_arr => { parse([foo(), Foo::new()]) }
    c22_box => { parse(Box::new(opt(|| Box::new(u8_())))) }
    c22_foo => { parse(foo()) }
    c22_flat => { parse(flat()) }
    c22_wide => { parse(wide()) }
    c22_act => { parse(act()) }
    c22_vec_act => { parse(vec_of(2, || { let mut v = Act::new_tuple(); if let Act::Tuple(a, ..) = &mut v { *a = u8_(); } v })) }
    c22_unit => { parse(Unit::new()) }
    c22_pair => { parse(pair()) }
    c22_either => { parse(either()) }
    c22_pair_pair => { let mut p: Pair<Either<u8, bool>, Pair<Vec<u8>, i8>> = Pair::new(); p.a = Either::new_right(); if let Either::Right(b, ..) = &mut p.a { *b = bool_(); } p.b.a = vec_of(2, u8_); p.b.b = i8_(); parse(p) }
    c22_settable => { let mut v = Settable::new(); match choose(3) {
        0 => { v.one = Choice::new_named(); if let Choice::Named { x, v, .. } = &mut v.one { *x = u16_(); *v = vec_of(2, u8_); } }
        1 => { v.one = Choice::new_tuple(); if let Choice::Tuple(x, f, ..) = &mut v.one { *x = u8_(); *f = foo(); } }
        _ => { v.nums = vec_of(2, u16_); v.opt = opt(foo); v.name = string(1); }
    } parse(v) }
    c22_partially => { let mut v = Partially::new_named(); if let Partially::Named { x, y, other_x, .. } = &mut v { *x = u8_(); *y = u8_(); *other_x = u8_(); } parse(v) }
    c22_point => { parse(point()) }
    c22_shape => { parse(shape()) }
    c22_world => { parse(world()) }
    c22_lean => { parse(lean()) }
    c22_renamed => { parse(renamed()) }
    c22_kind => { parse(kind()) }
    c22_holder => { parse(holder()) }
    c22_tuple => { parse(tuple()) }
    c22_tree => { parse(tree()) }
    c22_distant => { parse(distant()) }
    c22_far => { parse(far()) }
    c22_boxes => { parse(boxes()) }
    c22_numbers => { let mut v = Numbers::new(rt()); match choose(4) { 0 => { v.a = u32_(); v.e = bool_(); } 1 => v.b = i32_(), 2 => v.c = u64_(), _ => { v.d = i64_(); v.g = i8_(); } } parse(v) }
    c22_duo => { let mut v: Duo<List<u8>, Maybe<Point>> = Duo::new(rt()); v.a = list(2, u8_); v.b = maybe(point); parse(v) }
    c22_duo_map => { let mut v: Duo<Map<u16, Shape>, Box<u8>> = Duo::new(rt()); v.a = map_u16(1, thin_shape); *v.b = u8_(); parse(v) }
    c22_list => { parse(list(2, thin_shape)) }
    c22_map => { parse(map_u8(2, thin_point)) }
    c22_map_map => { parse(map_u8(2, || map_u8(1, u8_))) }
    c22_maybe => { parse(maybe(|| maybe(thin_point))) }
    c22_entry => { parse(entry(2, 1)) }

    c22_declared => {
        declared(st::<Foo>(), "Foo", &[], &[("f0", 0, "u8"), ("f1", 1, "i8")]);
        declared(st::<Flat>(), "Flat", &[], &[("a", 0, "u8"), ("b", 15, "i16"), ("c", 16, "bool"), ("d", 2047, "u16"), ("e", 2048, "i8"), ("f", 0x1fff_ffff, "u8")]);
        declared(st::<Unit>(), "Unit", &[], &[]);
        declared(st::<Pair<u8, u8>>(), "Pair", &["A", "B"], &[("a", 1, "'A"), ("b", 2, "'B")]);
        declared(st::<Settable>(), "Settable", &[], &[("nums", 0, "Vec u16"), ("one", 1, "Choice"), ("opt", 2, "Option Foo"), ("name", 3, "String")]);
        declared(st::<World>(), "World", &[], &[("id", 0, "u16"), ("at", 1, "Point"), ("pts", 2, "List Point"), ("map", 3, "Map u8 Shape"),
            ("opt", 4, "Maybe Point"), ("boxed", 5, "Box Point"), ("nums", 6, "List u8"), ("note", 7, "String"), ("shape", 20, "Shape")]);
        declared(st::<Renamed>(), "Renamed", &[], &[("size_cache", 0, "u8"), ("runtime", 1, "Point")]);
        declared(st::<Tree>(), "Tree", &[], &[("v", 0, "u8"), ("kids", 1, "List Tree"), ("named", 2, "Map u16 Tree")]);
        declared(st::<Duo<u8, u8>>(), "Duo", &["A", "B"], &[("a", 0, "'A"), ("b", 1, "'B")]);
        declared(st::<Boxes>(), "Boxes", &[], &[("n", 0, "Box u8"), ("s", 1, "Box Shape"), ("l", 2, "List Box u8"), ("m", 3, "Map u8 Box Shape"), ("o", 4, "Maybe Box i16")]);
        variants(en::<Act>(), "Act", &[], &[("Unit", 0), ("Tuple", 1), ("Named", 300), ("Lean", 7)]);
        variants(en::<Either<u8, u8>>(), "Either", &["A", "B"], &[("Left", 0), ("Right", 1)]);
        variants(en::<Shape>(), "Shape", &[], &[("Empty", 0), ("Circle", 3), ("Rect", 16)]);
        variants(en::<Maybe<u8>>(), "Maybe", &["T"], &[("None", 0), ("Some", 1)]);
        variants(en::<LogEntry>(), "LogEntry", &[], &[("Update", 0), ("ListPush", 8), ("ListPop", 9), ("MapRemove", 12)]);
        let a = en::<Act>();
        declared(&a.variants[1].ty, "Tuple", &[], &[("f0", 0, "u8"), ("f1", 3, "Foo")]);
        declared(&a.variants[2].ty, "Named", &[], &[("x", 2, "u16"), ("v", 1, "Vec u8")]);
        declared(&a.variants[3].ty, "Lean", &[], &[("y", 0, "i8")]);
        check(st::<World>().builtin == false && en::<Maybe<u8>>().builtin && en::<LogEntry>().builtin && !a.builtin, 36);
        cover(1);
    }
}
