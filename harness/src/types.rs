//! Message and state types the harnesses instantiate the derive macro and the containers with.
use std::collections::HashMap;
use steit::{steit_derive, types::*};

// ---- plain messages ----

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct Foo(#[steit(tag = 0)] pub u8, #[steit(tag = 1)] pub i8);

/// Tags of every encoded length: 1, 1, 2, 2, 3 and 5 bytes.
#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct Flat {
    #[steit(tag = 0)]
    pub a: u8,
    #[steit(tag = 15)]
    pub b: i16,
    #[steit(tag = 16)]
    pub c: bool,
    #[steit(tag = 2047)]
    pub d: u16,
    #[steit(tag = 2048)]
    pub e: i8,
    #[steit(tag = 0x1fff_ffff)]
    pub f: u8,
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct Wide {
    #[steit(tag = 1)]
    pub a: u32,
    #[steit(tag = 2)]
    pub b: i32,
    #[steit(tag = 3)]
    pub c: u64,
    #[steit(tag = 4)]
    pub d: i64,
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
#[steit(no_meta)]
pub struct Msg {
    #[steit(tag = 0)]
    pub name: String,
    #[steit(tag = 1)]
    pub nums: Vec<u16>,
    #[steit(tag = 2)]
    pub opt: Option<Foo>,
    #[steit(tag = 3)]
    pub arr: [u8; 2],
    #[steit(tag = 4)]
    pub tup: (u8, bool),
    #[steit(tag = 5)]
    pub raw: Bytes,
    #[steit(tag = 6)]
    pub boxed: Box<Foo>,
    #[steit(tag = 7)]
    pub foos: Vec<Foo>,
    #[steit(tag = 8)]
    pub map: HashMap<u8, u8>,
    #[steit(tag = 9)]
    pub act: Act,
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Act {
    #[steit(tag = 0)]
    Unit,
    #[steit(tag = 1)]
    Tuple(#[steit(tag = 0)] u8, #[steit(tag = 3)] Foo),
    #[steit(tag = 300)]
    Named {
        #[steit(tag = 2)]
        x: u16,
        #[steit(tag = 1)]
        v: Vec<u8>,
    },
    #[steit(tag = 7)]
    #[steit(no_size_cache)]
    Lean {
        #[steit(tag = 0)]
        y: i8,
    },
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct Unit;

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct Pair<A, B> {
    #[steit(tag = 1)]
    pub a: A,
    #[steit(tag = 2)]
    pub b: B,
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Either<A, B> {
    #[steit(tag = 0)]
    Left(#[steit(tag = 0)] A),
    #[steit(tag = 1)]
    Right(#[steit(tag = 0)] B),
}

/// Wraps a value into a tagged field followed by another one.
#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
#[steit(no_meta)]
pub struct W<T> {
    #[steit(tag = 1)]
    pub v: T,
    #[steit(tag = 2)]
    pub after: u8,
}

/// As `W`, without a size cache and with renamed hidden fields where there are any.
#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
#[steit(no_meta, no_size_cache)]
pub struct Slim<T> {
    #[steit(tag = 1)]
    pub v: T,
    #[steit(tag = 2)]
    pub after: u8,
}

// ---- states ----

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, State)]
pub struct Point {
    #[steit(tag = 0)]
    pub x: u8,
    #[steit(tag = 1)]
    pub y: i16,
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, State)]
pub enum Shape {
    #[steit(tag = 0)]
    Empty,
    #[steit(tag = 3)]
    Circle(#[steit(tag = 0)] u8),
    #[steit(tag = 16)]
    Rect {
        #[steit(tag = 1)]
        a: u8,
        #[steit(tag = 4)]
        p: Point,
    },
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct World {
    #[steit(tag = 0)]
    pub id: u16,
    #[steit(tag = 1)]
    pub at: Point,
    #[steit(tag = 2)]
    pub pts: List<Point>,
    #[steit(tag = 3)]
    pub map: Map<u8, Shape>,
    #[steit(tag = 4)]
    pub opt: Maybe<Point>,
    #[steit(tag = 5)]
    pub boxed: Box<Point>,
    #[steit(tag = 6)]
    pub nums: List<u8>,
    #[steit(tag = 7)]
    #[steit(no_state)]
    pub note: String,
    #[steit(tag = 20)]
    pub shape: Shape,
}

#[steit_derive(Clone, PartialEq, Debug, State)]
#[steit(no_size_cache)]
pub struct Lean {
    #[steit(tag = 0)]
    pub a: u8,
    #[steit(tag = 1)]
    pub p: Point,
}

#[steit_derive(Clone, PartialEq, Debug, State)]
#[steit(size_cache_renamed = "sz", runtime_renamed = "rt")]
pub struct Renamed {
    #[steit(tag = 0)]
    pub size_cache: u8,
    #[steit(tag = 1)]
    pub runtime: Point,
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Tuple(#[steit(tag = 0)] pub u8, #[steit(tag = 1)] pub Point, #[steit(tag = 2)] pub List<u8>);

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Tree {
    #[steit(tag = 0)]
    pub v: u8,
    #[steit(tag = 1)]
    pub kids: List<Tree>,
    #[steit(tag = 2)]
    pub named: Map<u16, Tree>,
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Numbers {
    #[steit(tag = 0)]
    pub a: u32,
    #[steit(tag = 1)]
    pub b: i32,
    #[steit(tag = 2)]
    pub c: u64,
    #[steit(tag = 3)]
    pub d: i64,
    #[steit(tag = 4)]
    pub e: bool,
    #[steit(tag = 5)]
    pub f: u16,
    #[steit(tag = 6)]
    pub g: i8,
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Far {
    #[steit(tag = 15)]
    pub a: u8,
    #[steit(tag = 300)]
    pub b: Point,
    #[steit(tag = 0x1fff_ffff)]
    pub c: Point,
    #[steit(tag = 70000)]
    pub d: Shape,
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Boxes {
    #[steit(tag = 0)]
    pub n: Box<u8>,
    #[steit(tag = 1)]
    pub s: Box<Shape>,
    #[steit(tag = 2)]
    pub l: List<Box<u8>>,
    #[steit(tag = 3)]
    pub m: Map<u8, Box<Shape>>,
    #[steit(tag = 4)]
    pub o: Maybe<Box<i16>>,
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Duo<A: steit::state::State, B: steit::state::State> {
    #[steit(tag = 0)]
    pub a: A,
    #[steit(tag = 1)]
    pub b: B,
}

/// Fields left out of equality or hashing; names that look like what the derive macro generates.
#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct Partly {
    #[steit(tag = 0)]
    pub a: u8,
    #[steit(tag = 1, no_eq_hash)]
    pub b: u8,
    #[steit(tag = 2, no_hash)]
    pub c: u8,
    #[steit(tag = 3)]
    pub other_a: u8,
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Partially {
    #[steit(tag = 0)]
    None,
    #[steit(tag = 1)]
    Named {
        #[steit(tag = 0)]
        x: u8,
        #[steit(tag = 1, no_eq_hash)]
        y: u8,
        #[steit(tag = 2, no_hash)]
        other_x: u8,
    },
    #[steit(tag = 2)]
    Tuple(#[steit(tag = 0)] u8, #[steit(tag = 1, no_eq_hash)] u8, #[steit(tag = 2, no_hash)] u8),
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
#[steit(derive_setters)]
pub struct Settable {
    #[steit(tag = 0)]
    pub nums: Vec<u16>,
    #[steit(tag = 1)]
    pub one: Choice,
    #[steit(tag = 2)]
    pub opt: Option<Foo>,
    #[steit(tag = 3)]
    pub name: String,
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
#[steit(derive_setters)]
pub enum Choice {
    #[steit(tag = 5)]
    Tuple(#[steit(tag = 0)] u8, #[steit(tag = 1)] Foo),
    #[steit(tag = 0)]
    Named {
        #[steit(tag = 0)]
        x: u16,
        #[steit(tag = 1)]
        v: Vec<u8>,
    },
}

/// The default variant has fields of its own.
#[steit_derive(Clone, PartialEq, Debug, State)]
pub enum Kind {
    #[steit(tag = 0)]
    Plain {
        #[steit(tag = 0)]
        n: u16,
        #[steit(tag = 1)]
        p: Point,
    },
    #[steit(tag = 1)]
    Many(#[steit(tag = 0)] List<u8>, #[steit(tag = 2)] Map<u8, u8>),
    #[steit(tag = 300)]
    Sub {
        #[steit(tag = 3)]
        part: Shape,
        #[steit(tag = 15, no_state)]
        note: String,
    },
}

/// Variants and their fields under numbers of every encoded length.
#[steit_derive(Clone, PartialEq, Debug, State)]
pub enum Distant {
    #[steit(tag = 127)]
    B(#[steit(tag = 127)] u8),
    #[steit(tag = 0)]
    A,
    #[steit(tag = 128)]
    C {
        #[steit(tag = 16383)]
        n: i16,
    },
    #[steit(tag = 16383)]
    D(#[steit(tag = 15)] bool, #[steit(tag = 16)] u8),
    #[steit(tag = 16384)]
    E {
        #[steit(tag = 2047)]
        x: u8,
        #[steit(tag = 2048)]
        y: u8,
    },
    #[steit(tag = 2097152)]
    F(#[steit(tag = 262143)] Point),
    #[steit(tag = 268435456)]
    G {
        #[steit(tag = 33554432)]
        l: List<u8>,
        #[steit(tag = 0)]
        n: u8,
    },
    #[steit(tag = 536870911)]
    H(#[steit(tag = 536870911)] u8),
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Holder {
    #[steit(tag = 1)]
    pub kind: Kind,
    #[steit(tag = 2)]
    pub kinds: List<Kind>,
    #[steit(tag = 3)]
    pub byk: Map<u8, Kind>,
}
