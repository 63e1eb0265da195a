//! C27: generated sources declare, read and dispatch what the metadata says.
use crate::{common::*, gen::*, ops::*, sym::*, types::*};
use std::io::ErrorKind;
use steit::{gen::{generators::*, *}, log::LogEntry, meta::*, rt::*, steit_derive, types::*, wire_fmt::*};

// ---- a file system of our own: nothing is ever written to a real one ----

struct FakeFile {
    path: Vec<u8>,
    data: Vec<u8>,
    open: bool,
}

static mut FILES: Vec<FakeFile> = Vec::new();
/// The file of which a call fails: to open it, or to write to it, counted down. The order of files does not matter.
static mut FAIL: (&str, u32) = ("", 0);
static mut FAILED: bool = false;
/// How many bytes a write accepts.
static mut ROOM: usize = usize::MAX;
const FD: i32 = 1000;

extern "C" {
    fn __errno_location() -> *mut i32;
}

#[allow(static_mut_refs)]
fn files() -> &'static mut Vec<FakeFile> {
    unsafe { &mut FILES }
}

#[allow(static_mut_refs)]
unsafe fn faulty(path: &[u8]) -> bool {
    if FAIL.0.is_empty() || !path.ends_with(FAIL.0.as_bytes()) {
        return false;
    }
    if FAIL.1 == 0 {
        FAILED = true;
        *__errno_location() = 28; // ENOSPC
        return true;
    }
    FAIL.1 -= 1;
    false
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, _mode: u32) -> i32 {
    check(flags & 0x243 == 0x241, 90); // O_WRONLY | O_CREAT | O_TRUNC
    let mut p = Vec::new();
    let mut i = 0;
    while *path.add(i) != 0 {
        p.push(*path.add(i));
        i += 1;
    }
    if faulty(&p) {
        return -1;
    }
    check(!files().iter().any(|f| f.path == p), 91); // each file once
    files().push(FakeFile { path: p, data: Vec::new(), open: true });
    FD + files().len() as i32 - 1
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if fd < FD {
        return n as isize;
    }
    let f = &mut files()[(fd - FD) as usize];
    check(f.open, 92);
    if faulty(&f.path) {
        return -1;
    }
    let n = n.min(ROOM);
    f.data.extend_from_slice(std::slice::from_raw_parts(buf, n));
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd >= FD {
        let f = &mut files()[(fd - FD) as usize];
        check(f.open, 93);
        f.open = false;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(_fd: i32, _cmd: i32, _arg: usize) -> i32 {
    0
}

// ---- reading what was generated ----

struct Source<'a> {
    lines: Vec<(usize, &'a [u8])>,
}

fn starts(l: &[u8], p: &str) -> bool {
    l.len() >= p.len() && same(&l[..p.len()], p.as_bytes())
}

fn is(l: &[u8], s: &str) -> bool {
    same(l, s.as_bytes())
}

impl<'a> Source<'a> {
    /// Splits into lines; their indentation follows the brackets, which are balanced.
    fn new(text: &'a str) -> Self {
        let mut lines = Vec::new();
        let mut depth = 0usize;
        check(text.ends_with('\n'), 1);
        for line in text.as_bytes()[..text.len() - 1].split(|b| *b == b'\n') {
            let n = line.iter().position(|b| *b != b' ').unwrap_or(0);
            let l = &line[n..];
            let mut lead = 0;
            while lead < l.len() && (l[lead] == b'}' || l[lead] == b')') {
                lead += 1;
            }
            // `) {` closes and opens again.
            check(depth >= lead, 2);
            check(l.is_empty() || n == 4 * (depth - lead), 3);
            let mut d = depth as isize;
            for b in l {
                match *b {
                    b'{' | b'(' => d += 1,
                    b'}' | b')' => d -= 1,
                    _ => (),
                }
                check(d >= 0, 4);
            }
            depth = d as usize;
            if !l.is_empty() {
                lines.push((n / 4, l));
            }
        }
        check(depth == 0, 5);
        Source { lines }
    }

    /// The lines directly or indirectly inside the only block at this indentation that starts with `head`.
    fn block(&self, at: usize, head: &str) -> Source<'a> {
        let mut found = self.lines.iter().enumerate().filter(|(_, (n, l))| *n == at && starts(l, head)).map(|(i, _)| i);
        let start = found.next();
        check(start.is_some(), 6);
        check(found.next().is_none(), 7);
        let start = start.unwrap();
        let len = self.lines[start + 1..].iter().position(|(n, l)| *n == at && starts(l, "}"));
        check(len.is_some(), 8);
        Source { lines: self.lines[start + 1..start + 1 + len.unwrap()].to_vec() }
    }

    fn at(&self, indent: usize) -> Vec<&'a [u8]> {
        self.lines.iter().filter(|(n, _)| *n == indent).map(|(_, l)| *l).collect()
    }

    /// The lines at this indentation that start like that are these.
    fn exactly(&self, at: usize, head: &str, want: &[String]) {
        let got: Vec<_> = self.at(at).into_iter().filter(|l| starts(l, head)).collect();
        check(got.len() == want.len(), 10);
        for (g, w) in got.iter().zip(want) {
            check(same(g, w.as_bytes()), 11);
        }
    }

    fn once(&self, at: usize, want: &str) {
        check(self.at(at).into_iter().filter(|l| is(l, want)).count() == 1, 12);
    }
}

// ---- what it has to say ----

fn unboxed(t: &'static FieldTypeMeta) -> &'static FieldTypeMeta {
    match t {
        FieldTypeMeta::Type(TypeMeta::Ref(n, args)) if n.rust == "Box" => unboxed(&args[0]),
        t => t,
    }
}

fn cs(t: &'static FieldTypeMeta) -> String {
    match unboxed(t) {
        FieldTypeMeta::TypeParam(p) => p.to_string(),
        FieldTypeMeta::Type(TypeMeta::Primitive(n, _)) => n.csharp.unwrap().to_string(),
        FieldTypeMeta::Type(TypeMeta::Ref(n, args)) => {
            let mut s = n.csharp.unwrap_or(n.rust).to_string();
            let first = if n.rust == "Map" { args.len() - 1 } else { 0 };
            for (i, a) in args[first..].iter().enumerate() {
                s.push_str(if i == 0 { "<" } else { ", " });
                s.push_str(&cs(a));
            }
            if !args.is_empty() {
                s.push('>');
            }
            s
        }
    }
}

/// ASCII names only.
fn camel(name: &str) -> String {
    let mut s = String::new();
    let mut up = true;
    for b in name.bytes() {
        if b == b'_' {
            up = true;
        } else {
            s.push(if up && b >= b'a' && b <= b'z' { b - 32 } else { b } as char);
            up = false;
        }
    }
    s
}

fn params(p: &[&str]) -> String {
    if p.is_empty() { String::new() } else { ["<", &p.join(", "), ">"].concat() }
}

fn name(n: &'static NameMeta) -> &'static str {
    n.csharp.unwrap_or(n.rust)
}

/// The class of a struct, declared at this indentation.
fn class(src: &Source, at: usize, m: &StructMeta, variant: bool) {
    let n = name(m.name);
    let ty = if variant { n.to_string() } else { [n, &params(m.type_params)].concat() };
    let c = src.block(at, &["public sealed partial class ", &ty, " : IState {"].concat());
    let d = at + 1;
    let f: Vec<_> = m.fields.iter().map(|f| (camel(name(f.name)), cs(f.ty), f.tag.to_string(), unboxed(f.ty))).collect();

    c.once(d, "public Path Path { get; }");
    let props: Vec<_> = f.iter().map(|(n, t, ..)| ["public ", t, " ", n, " { get; private set; }"].concat()).collect();
    let got: Vec<_> = c.at(d).into_iter().filter(|l| l.ends_with(b" { get; private set; }")).collect();
    check(got.len() == props.len() && got.iter().zip(&props).all(|(g, p)| is(g, p)), 20);

    let new = c.block(d, &[if variant { "internal " } else { "public " }, n, "(Path path = null) {"].concat());
    new.once(d + 1, "this.Path = path ?? Path.Root;");
    let mut init = vec!["this.Path = path ?? Path.Root;".to_string()];
    for (n, t, tag, ty) in &f {
        match ty {
            FieldTypeMeta::Type(TypeMeta::Primitive(..)) => (),
            FieldTypeMeta::Type(TypeMeta::Ref(..)) => init.push(["this.", n, " = new ", t, "(this.Path.GetNested(", tag, "));"].concat()),
            FieldTypeMeta::TypeParam(p) => init.push(["this.", n, " = StateFactory.Construct<", p, ">(this.Path.GetNested(", tag, "));"].concat()),
        }
    }
    new.exactly(d + 1, "this.", &init);
    new.exactly(d + 1, "StateFactory.ValidateType(", &m.type_params.iter().map(|p| ["StateFactory.ValidateType(typeof(", p, "));"].concat()).collect::<Vec<_>>());

    c.exactly(d, "public static event", &f.iter().map(|(n, t, ..)| ["public static event EventHandler<FieldUpdateEventArgs<", t, ", ", &ty, ">> On", n, "Update;"].concat()).collect::<Vec<_>>());
    // Each handler is cleared on its own and with the others.
    if f.len() > 1 {
        for (n, ..) in &f {
            c.once(d, &["public static void Clear", n, "UpdateHandlers() { On", n, "Update = null; }"].concat());
        }
    } else if let Some((n, ..)) = f.first() {
        c.block(d, &["public static void Clear", n, "UpdateHandlers() {"].concat()).exactly(d + 1, "", &[["On", n, "Update = null;"].concat()]);
    }
    if f.is_empty() {
        c.once(d, "public static void ClearUpdateHandlers() { }");
    } else {
        c.block(d, "public static void ClearUpdateHandlers() {").exactly(d + 1, "", &f.iter().map(|(n, ..)| ["On", n, "Update = null;"].concat()).collect::<Vec<_>>());
    }

    let mut var = n.to_string();
    var[..1].make_ascii_lowercase();
    c.block(d, &[if variant { "internal" } else { "public" }, " static ", &ty, " Deserialize(IReader reader, Path path = null) {"].concat()).exactly(d + 1, "", &[
        ["var ", &var, " = new ", &ty, "(path);"].concat(),
        [&var, ".Replace(reader, shouldNotify: false);"].concat(),
        ["return ", &var, ";"].concat(),
    ]);

    let mut wire = Vec::new();
    let mut nested = Vec::new();
    let mut replace = Vec::new();
    for (n, t, tag, ty) in &f {
        let (w, get, read) = match ty {
            FieldTypeMeta::Type(TypeMeta::Primitive(_, WireType::Varint)) => ("WireType.Varint".to_string(), None, ["reader.Read", t, "()"].concat()),
            FieldTypeMeta::Type(TypeMeta::Primitive(_, WireType::Sized)) => ("WireType.Sized".to_string(), None, ["reader.Read", t, "()"].concat()),
            FieldTypeMeta::Type(TypeMeta::Ref(..)) => ("WireType.Sized".to_string(), Some(["this.", n].concat()), [t, ".Deserialize(reader, this.Path.GetNested(", tag, "))"].concat()),
            FieldTypeMeta::TypeParam(p) => (
                ["StateFactory.IsStateType(typeof(", p, ")) ? WireType.Sized : WireType.Varint"].concat(),
                Some(["this.", n, " as IState"].concat()),
                ["StateFactory.Deserialize<", t, ">(reader, this.Path, ", tag, ")"].concat(),
            ),
        };
        wire.push(["case ", tag, ": return ", &w, ";"].concat());
        if let Some(g) = get {
            nested.push(["case ", tag, ": return ", &g, ";"].concat());
        }
        replace.push(["case ", tag, ": this.", n, " = this.MaybeNotify(", tag, ", ", &read, ", this.", n, ", On", n, "Update, shouldNotify); break;"].concat());
    }
    switch(&c, d, "public WireType? GetWireType(UInt32 tag) {", wire, "default: return null;");
    switch(&c, d, "public IState GetNested(UInt32 tag) {", nested, "default: return null;");
    switch(&c, d, "public void ReplaceAt(UInt32 tag, WireType wireType, IReader reader, bool shouldNotify) {", replace, "default: reader.SkipField(wireType); break;");

    let notify = c.block(d, "private TValue MaybeNotify<TValue>(");
    notify.exactly(d + 1, "EventHandler<", &[["EventHandler<FieldUpdateEventArgs<TValue, ", &ty, ">> handler,"].concat()]);
    c.once(d + 2, &["var args = new FieldUpdateEventArgs<TValue, ", &ty, ">(tag, newValue, oldValue, this);"].concat());
}

/// A method that consists of one switch over `tag`.
fn switch(c: &Source, d: usize, head: &str, mut cases: Vec<String>, default: &str) {
    let body = c.block(d, head);
    body.exactly(d + 1, "", &["switch (tag) {".to_string(), "}".to_string()]);
    cases.push(default.to_string());
    body.exactly(d + 2, "", &cases);
}

fn enumeration(src: &Source, m: &EnumMeta) {
    let n = name(m.name);
    let ty = [n, &params(m.type_params)].concat();
    let c = src.block(1, &["public sealed partial class ", &ty, " : IEnumState {"].concat());
    let v: Vec<_> = m.variants.iter().map(|v| (name(v.ty.name), camel(name(v.ty.name)), v.tag.to_string())).collect();
    let default = m.variants.iter().position(|v| v.tag == 0).unwrap();
    let dn = v[default].0;
    let list = |f: &dyn Fn(&(&'static str, String, String)) -> String| v.iter().map(f).collect::<Vec<_>>();

    c.exactly(2, "public const UInt32 ", &list(&|(_, n, tag)| ["public const UInt32 ", n, "Tag = ", tag, ";"].concat()));
    for (n, ..) in &v {
        c.once(2, &["public ", n, " ", n, "Variant { get { return this.Variant as ", n, "; } }"].concat());
    }
    c.once(2, "public UInt32 Tag { get; private set; }");
    c.once(2, "public IState Variant { get; private set; }");
    c.once(2, &["public ", n, "(Path path = null) : this(path, 0) { }"].concat());
    let new = c.block(2, &["public ", n, "(Path path, UInt32 tag) {"].concat());
    new.exactly(3, "StateFactory.ValidateType(", &m.type_params.iter().map(|p| ["StateFactory.ValidateType(typeof(", p, "));"].concat()).collect::<Vec<_>>());
    new.exactly(3, "this.", &["this.Path = path ?? Path.Root;".to_string(), "this.Tag = tag;".to_string()]);
    let mut cases = list(&|(n, _, tag)| ["case ", tag, ": this.Variant = new ", n, "(this.Path.GetNested(", tag, ")); break;"].concat());
    cases.push(["default: this.Variant = new ", dn, "(this.Path.GetNested(0)); break;"].concat());
    new.exactly(4, "", &cases);
    c.exactly(2, &["public static ", &ty, " New"].concat(), &list(&|(_, v, tag)| ["public static ", &ty, " New", v, "(Path path = null) { return new ", &ty, "(path, ", tag, "); }"].concat()));
    check(c.at(2).into_iter().filter(|l| l.ends_with(b"); }") && starts(l, "public static ")).count() == v.len(), 24);

    let mut var = n.to_string();
    var[..1].make_ascii_lowercase();
    c.exactly(2, "public static event", &[["public static event EventHandler<VariantUpdateEventArgs<", &ty, ">> OnUpdate;"].concat()]);
    c.block(2, "public static void ClearUpdateHandlers() {").exactly(3, "", &["OnUpdate = null;".to_string()]);
    c.block(2, &["public static ", &ty, " Deserialize(IReader reader, Path path = null) {"].concat()).exactly(3, "", &[
        ["var ", &var, " = new ", &ty, "(path);"].concat(),
        [&var, ".Replace(reader, shouldNotify: false);"].concat(),
        ["return ", &var, ";"].concat(),
    ]);

    switch(&c, 2, "public WireType? GetWireType(UInt32 tag) {", list(&|(_, _, tag)| ["case ", tag, ": return WireType.Sized;"].concat()), "default: return null;");
    c.block(2, "public IState GetNested(UInt32 tag) {").exactly(3, "", &["return tag == this.Tag ? this.Variant : null;".to_string()]);
    switch(&c, 2, "public void ReplaceAt(UInt32 tag, WireType wireType, IReader reader, bool shouldNotify) {",
        list(&|(n, _, tag)| ["case ", tag, ": this.UpdateAndNotify(", tag, ", ", n, ".Deserialize(reader, this.Path.GetNested(", tag, ")), shouldNotify); break;"].concat()),
        "default: reader.SkipToEnd(); break;");
    let update = c.block(2, "private void UpdateAndNotify(UInt32 newTag, IState newVariant, bool shouldNotify) {");
    update.exactly(3, "", &["if (shouldNotify) {".to_string(), "}".to_string(), "this.Tag = newTag;".to_string(), "this.Variant = newVariant;".to_string()]);
    update.exactly(4, "", &[
        ["var args = new VariantUpdateEventArgs<", &ty, ">(newTag, newVariant, this.Tag, this.Variant, this);"].concat(),
        [&ty, ".OnUpdate?.Invoke(this, args);"].concat(),
    ]);
    for v in m.variants {
        class(&c, 2, &v.ty, true);
    }
    check(c.at(2).into_iter().filter(|l| starts(l, "public sealed partial class ")).count() == m.variants.len(), 21);
}

/// A whole file.
fn file(text: &str, msg: &MessageMeta, used: &[&str]) {
    let src = Source::new(text);
    let mut usings: Vec<_> = ["Steit.Builtins", "Steit.Codec", "Steit.Collections", "Steit.State", "Steit.State.Event"].iter().chain(used).collect();
    usings.sort();
    let mut want = vec!["using System;".to_string()];
    want.extend(usings.iter().map(|u| ["using ", u, ";"].concat()));
    src.exactly(0, "using ", &want);
    check(src.at(0).into_iter().filter(|l| starts(l, "namespace ")).count() == 1, 22);
    src.once(0, "namespace Some.Space {");
    check(src.at(1).len() == 2, 23);
    match msg {
        MessageMeta::Struct(m) => class(&src, 1, m, false),
        MessageMeta::Enum(m) => enumeration(&src, m),
    }
}

fn setting() -> CSharpSetting {
    CSharpSetting::new("Some.Space")
}

fn source(msg: &MessageMeta, setting: &CSharpSetting) -> String {
    let mut w = Writer::new(CSharpGenerator::INDENT_SIZE);
    match msg {
        MessageMeta::Struct(m) => CSharpGenerator.gen_struct(m, false, setting, &mut w),
        MessageMeta::Enum(m) => CSharpGenerator.gen_enum(m, setting, &mut w),
    }
    w.end()
}

fn generated(msg: &MessageMeta) {
    let text = source(msg, &setting());
    file(&text, msg, &[]);
    cover(1);
}

fn real<T: HasMeta>() {
    generated(T::LINK.msg.as_ref().unwrap())
}

// ---- made-up metadata ----

fn leak<T>(v: T) -> &'static T {
    Box::leak(Box::new(v))
}

fn names(n: &'static str) -> &'static NameMeta {
    leak(NameMeta { rust: n, csharp: if choose(2) == 0 { None } else { Some("other_name") } })
}

/// A name of up to `n` letters and underscores, starting with a letter.
fn ident(n: u32) -> &'static str {
    let b = bytes(1 + choose(n) as usize);
    for (i, c) in b.iter().enumerate() {
        assume(*c >= b'a' && *c <= b'z' || i > 0 && (*c == b'_' || *c >= b'A' && *c <= b'Z'));
    }
    leak(String::from_utf8(b).unwrap())
}

fn field_type() -> &'static FieldTypeMeta {
    const POINT: FieldTypeMeta = FieldTypeMeta::Type(&TypeMeta::Ref(&NameMeta::new("Point"), &[]));
    const BYTE: FieldTypeMeta = FieldTypeMeta::Type(u8::TYPE);
    const TWO: FieldTypeMeta = FieldTypeMeta::Type(&TypeMeta::Ref(&NameMeta { rust: "Two", csharp: None }, &[BYTE, POINT]));
    const PARAM: FieldTypeMeta = FieldTypeMeta::TypeParam("T");
    match choose(13) {
        0 => &BYTE,
        1 => &FieldTypeMeta::Type(i64::TYPE),
        2 => &FieldTypeMeta::Type(bool::TYPE),
        3 => &FieldTypeMeta::Type(String::TYPE),
        4 => &POINT,
        5 => &PARAM,
        6 => &FieldTypeMeta::Type(&TypeMeta::Ref(<Box<u8> as HasMeta>::NAME, &[POINT])),
        7 => &FieldTypeMeta::Type(&TypeMeta::Ref(<Box<u8> as HasMeta>::NAME, &[BYTE])),
        8 => &FieldTypeMeta::Type(&TypeMeta::Ref(<Box<u8> as HasMeta>::NAME, &[PARAM])),
        9 => &FieldTypeMeta::Type(&TypeMeta::Ref(<Map<u8, u8> as HasMeta>::NAME, &[BYTE, PARAM])),
        10 => &FieldTypeMeta::Type(<Map<u16, List<u8>> as HasMeta>::TYPE),
        11 => &FieldTypeMeta::Type(&TypeMeta::Ref(<List<u8> as HasMeta>::NAME, &[FieldTypeMeta::Type(&TypeMeta::Ref(<Box<u8> as HasMeta>::NAME, &[BYTE]))])),
        _ => &TWO,
    }
}

fn fields(v: Vec<FieldMeta>, p: &'static [&'static str]) -> StructMeta {
    StructMeta { name: names("Thing"), type_params: p, fields: Box::leak(v.into_boxed_slice()), builtin: bool_() }
}

fn tag() -> u32 {
    let t = u32_();
    assume(t <= FIELD_NUMBER_MAX);
    t
}

// ---- whole generations ----

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct A {
    #[steit(tag = 0)]
    pub b: Box<B>,
}
#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct B {
    #[steit(tag = 0)]
    pub c: Vec<C>,
    #[steit(tag = 1)]
    pub n: Box<i8>,
}
#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct C {
    #[steit(tag = 0, csharp_name = "renamed")]
    pub d: [D; 2],
    #[steit(tag = 1)]
    pub p: Pair<Option<E>, u8>,
}
#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum D {
    #[steit(tag = 0)]
    First,
    #[steit(tag = 9)]
    Second(#[steit(tag = 1)] Box<F>),
}
#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct E;
#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
#[steit(csharp_name = "Eff")]
pub struct F {
    #[steit(tag = 3)]
    pub s: String,
}
pub type Bag = Map<u16, Point>;
#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Bags {
    #[steit(tag = 0)]
    pub bag: Bag,
    #[steit(tag = 1)]
    pub more: List<Bag>,
}

fn generate<T: HasMeta>(s: &Setting<CSharpSetting>) -> std::io::Result<Vec<String>> {
    files().clear();
    CSharpGenerator.generate::<T>(s)
}

fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

fn all<'a>(names: &[&str]) -> Vec<String> {
    sorted(names.iter().map(|n| n.to_string()).collect())
}

fn msgs(link: &'static MetaLink, depth: u32, out: &mut Vec<&'static MessageMeta>) {
    if let Some(m) = &link.msg {
        if !out.iter().any(|o| o.csharp_name() == m.csharp_name()) {
            out.push(m);
        }
    }
    if depth > 0 {
        for l in (link.links)() {
            msgs(l, depth - 1, out);
        }
    }
}

/// Every message that can be reached from `T` has its file, with what belongs there.
fn project<T: HasMeta>(want: &[&str], depth: u32) {
    let s = Setting::new(&"/steit-gen", setting().using_namespaces(vec!["Some.More"]));
    let r = generate::<T>(&s);
    check(r.is_ok(), 60);
    check(sorted(r.unwrap()) == all(want), 61);
    let mut reachable = Vec::new();
    msgs(T::LINK, depth, &mut reachable);
    reachable.retain(|m| !m.is_builtin());
    check(reachable.len() == want.len() && files().len() == want.len(), 62);
    for m in reachable {
        let path = ["/steit-gen/", &m.csharp_name(), ".cs"].concat();
        let f = files().iter().find(|f| f.path == path.as_bytes());
        check(f.is_some(), 63);
        let f = f.unwrap();
        check(!f.open, 64);
        let text = std::str::from_utf8(&f.data).unwrap();
        file(text, m, &["Some.More"]);
    }
    cover(1);
}

harness! {
    c27_camel => {
        let s = ident(4);
        let upper = bool_();
        let got = str_util::to_camel_case(s, upper);
        let want = camel(s);
        let lead = if upper { &want[..1] } else { &s[..1] };
        check(same(&got.as_bytes()[..1], lead.as_bytes()) && same(&got.as_bytes()[1..], &want.as_bytes()[1..]), 30);
        check(same(str_util::to_camel_case("données_été", true).as_bytes(), "DonnéesÉté".as_bytes()), 31);
        cover(1);
    }
    c27_uncap => {
        let b = bytes(choose(4) as usize);
        for c in &b {
            assume(*c < 128);
        }
        let s = String::from_utf8(b).unwrap();
        let got = str_util::uncap_first_char(&s);
        let mut want = s.into_bytes();
        if let Some(c) = want.first_mut() {
            if *c >= b'A' && *c <= b'Z' {
                *c += 32;
            }
        }
        check(same(got.as_bytes(), &want), 32);
        check(str_util::uncap_first_char("Été") == "été", 33);
        cover(1);
    }
    c27_snake => {
        let s = ident(4);
        let got = str_util::to_snake_case(s);
        let mut want = Vec::new();
        for (i, c) in s.bytes().enumerate() {
            if c >= b'A' && c <= b'Z' {
                if i > 0 { want.push(b'_'); }
                want.push(c + 32);
            } else {
                want.push(c);
            }
        }
        check(same(got.as_bytes(), &want), 34);
        cover(1);
    }
    c27_writer => {
        let size = choose(5) as usize;
        let mut w = Writer::new(size);
        let mut want = String::new();
        let mut level = 0usize;
        for _ in 0..4 + deep() {
            match choose(7) {
                0 => { w.indent(); level += 1; }
                1 => { w.outdent(); level = level.saturating_sub(1); }
                2 => { w.write("a"); want.push('a'); }
                3 => { w.newline(); want.push('\n'); }
                4 => { w.writeln("b{"); want.push_str(&[&" ".repeat(level * size), "b{\n"].concat()); }
                5 => { w.indent_writeln("c"); level += 1; want.push_str(&[&" ".repeat(level * size), "c\n"].concat()); }
                _ => { w.outdent_writeln("}"); level = level.saturating_sub(1); want.push_str(&[&" ".repeat(level * size), "}\n"].concat()); }
            }
        }
        check(w.end() == want, 35);
        cover(1);
    }

    // One field of any kind, number and name.
    c27_field_type => { let f = FieldMeta { name: names("some_field"), ty: field_type(), tag: 5 }; generated(&MessageMeta::Struct(fields(vec![f], &["T"]))) }
    c27_field_tag => { let f = FieldMeta { name: &NameMeta { rust: "f", csharp: None }, ty: if choose(2) == 0 { &FieldTypeMeta::Type(u8::TYPE) } else { &FieldTypeMeta::TypeParam("T") }, tag: tag() }; generated(&MessageMeta::Struct(fields(vec![f], &["T"]))) }
    c27_field_name => { let f = FieldMeta { name: leak(NameMeta { rust: ident(3), csharp: None }), ty: &FieldTypeMeta::Type(u8::TYPE), tag: 1 }; generated(&MessageMeta::Struct(fields(vec![f], &[]))) }
    // Several.
    c27_fields => {
        let n = choose(3);
        let v = (0..n).map(|i| FieldMeta { name: &["one", "two_more"].map(|n| leak(NameMeta::new(n)))[i as usize], ty: field_type(), tag: [7, 300][i as usize] }).collect();
        generated(&MessageMeta::Struct(fields(v, &["S", "T"])))
    }
    c27_two_tags => {
        let v = (0..2).map(|i| FieldMeta { name: &["one", "two_more"].map(|n| leak(NameMeta::new(n)))[i as usize], ty: &FieldTypeMeta::Type(u8::TYPE), tag: tag() }).collect();
        generated(&MessageMeta::Struct(fields(v, &["T"])))
    }
    // Variants of any number.
    c27_variants => {
        let mut v = vec![VariantMeta { ty: StructMeta { name: leak(NameMeta::new("Nothing")), type_params: &[], fields: &[], builtin: false }, tag: 0 }];
        let f = FieldMeta { name: leak(NameMeta::new("some_field")), ty: field_type(), tag: 5 };
        let other = VariantMeta { ty: StructMeta { name: names("OtherThing"), type_params: &[], fields: leak([f]), builtin: false }, tag: [1, 15, 300][choose(3) as usize] };
        if choose(2) == 0 { v.push(other) } else { v.insert(0, other) }
        generated(&MessageMeta::Enum(EnumMeta { name: names("Thing"), type_params: if choose(2) == 0 { &[] } else { &["T"] }, variants: Box::leak(v.into_boxed_slice()), builtin: false }))
    }
    c27_variant_tag => {
        let t = tag();
        assume(t > 0);
        let v = vec![
            VariantMeta { ty: StructMeta { name: leak(NameMeta::new("nothing_yet")), type_params: &[], fields: &[], builtin: false }, tag: 0 },
            VariantMeta { ty: StructMeta { name: leak(NameMeta::new("Thing_two")), type_params: &[], fields: &[], builtin: false }, tag: t },
        ];
        generated(&MessageMeta::Enum(EnumMeta { name: leak(NameMeta::new("Some")), type_params: &[], variants: Box::leak(v.into_boxed_slice()), builtin: false }))
    }

    c27_real => {
        match choose(22) {
            0 => real::<Foo>(),
            1 => real::<Flat>(),
            2 => real::<Wide>(),
            3 => real::<Act>(),
            4 => real::<Unit>(),
            5 => real::<Pair<u8, u8>>(),
            6 => real::<Either<u8, u8>>(),
            7 => real::<Point>(),
            8 => real::<Shape>(),
            9 => real::<World>(),
            10 => real::<Renamed>(),
            11 => real::<Tuple>(),
            12 => real::<Tree>(),
            13 => real::<Far>(),
            14 => real::<Boxes>(),
            15 => real::<Duo<u8, u8>>(),
            16 => real::<Bags>(),
            17 => real::<LogEntry>(),
            18 => real::<Kind>(),
            19 => real::<Holder>(),
            20 => real::<Distant>(),
            _ => real::<Maybe<u8>>(),
        }
    }

    c27_project_a => { project::<A>(&["A", "B", "C", "D", "E", "Eff", "Pair"], 12) }
    c27_project_world => { project::<World>(&["World", "Point", "Shape"], 5) }
    c27_project_holder => { project::<Holder>(&["Holder", "Kind", "Shape", "Point"], 5) }
    c27_project_tree => { project::<Tree>(&["Tree"], 3) }
    c27_project_boxes => { project::<Boxes>(&["Boxes", "Shape", "Point"], 5) }
    c27_project_bags => { project::<Bags>(&["Bags", "Point"], 5) }
    c27_project_far => { project::<Box<Far>>(&["Far", "Shape", "Point"], 5) }
    c27_project_duo => { project::<Duo<List<Shape>, Pair3>>(&["Duo", "Shape", "Point", "Tuple"], 5) }
    c27_settings => {
        let builtins = choose(2) == 0;
        let mut s = Setting::new(&"/out", setting()).skip_builtins(!builtins);
        let mut want = vec!["World", "Shape", "Point", "Maybe"];
        if !builtins { want.pop(); }
        match choose(4) {
            0 => (),
            // Only whole names count.
            3 => s = s.skip_names(vec!["P", "Poin", "Points", "point", "", "ape"]),
            1 => { s = s.skip_names(vec!["Point"]); want.retain(|w| *w != "Point"); }
            _ => { s = s.skip_names(vec!["World", "Nope", "Shape"]); want.retain(|w| *w != "World" && *w != "Shape"); }
        }
        let r = generate::<World>(&s);
        check(r.is_ok() && sorted(r.unwrap()) == all(&want), 65);
        check(sorted(files().iter().map(|f| String::from_utf8(f.path.clone()).unwrap()).collect()) == sorted(want.iter().map(|w| ["/out/", w, ".cs"].concat()).collect()), 66);
        cover(1);
    }
    c27_names => {
        let s = Setting::new(&"/out", setting());
        let rust = choose(2) == 0;
        let s = if rust { s.get_name_rust() } else { s.get_name_rust().get_name_csharp() };
        let r = generate::<F>(&s);
        check(r.is_ok() && r.unwrap() == [if rust { "F" } else { "Eff" }], 67);
        cover(1);
    }
    // A disk that is full, or takes its time: all of it is there, or an error is reported.
    c27_faults => {
        let s = Setting::new(&"/out", setting());
        unsafe {
            FAIL = (["Eff.cs", "Point.cs", "World.cs", "Shape.cs"][choose(4) as usize], choose(4));
            ROOM = [1000, 4096, usize::MAX][choose(3) as usize];
        }
        let (r, n) = match choose(3) {
            0 => (generate::<E>(&s), 1),
            1 => (generate::<Point>(&s), 1),
            _ => (generate::<World>(&s), 3),
        };
        if unsafe { FAILED } {
            check(r.is_err(), 70);
            check(r.err().unwrap().raw_os_error() == Some(28), 71);
            cover(2);
        } else {
            check(r.is_ok() && files().len() == n, 72);
            for f in files().iter() {
                check(f.data.ends_with(b"\n}\n") && !f.open, 73);
            }
            cover(1);
        }
    }
}
type Pair3 = Tuple;
