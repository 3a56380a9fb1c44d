// Generated by tools/gen_shapes.py.
#![allow(dead_code, non_snake_case)]
use crate::cols::P;
use crate::p_derive::*;
use crate::val::*;

pub mod m0 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Header {
        pub c: Vec<i64>,
        pub next: Vec<u64>,
        pub type_name: [i8; 7],
        pub T1: Vec<i8>,
        pub func: u16,
        pub tree: [u8; 1],
        pub xi: Vec<u16>,
    }
    impl Node for Header {
        fn leaves(self, o: &mut Vec<V>) {
            self.c.leaves(o);
            self.next.leaves(o);
            self.type_name.leaves(o);
            self.T1.leaves(o);
            self.func.leaves(o);
            self.tree.leaves(o);
            self.xi.leaves(o);
        }
    }
    impl Build for Header {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Header {
                c: <Vec<i64> as Build>::build(it),
                next: <Vec<u64> as Build>::build(it),
                type_name: <[i8; 7] as Build>::build(it),
                T1: <Vec<i8> as Build>::build(it),
                func: <u16 as Build>::build(it),
                tree: <[u8; 1] as Build>::build(it),
                xi: <Vec<u16> as Build>::build(it),
            }
        }
    }
}

pub mod m1 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Iter {
        pub f59: String,
        pub f58: Vec<f64>,
        pub f57: String,
        pub f56: u8,
        pub f55: f32,
        pub f54: i32,
        pub f53: i16,
        pub f52: u32,
        pub f51: Vec<f64>,
        pub f50: Vec<u16>,
        pub f49: i16,
        pub f48: i32,
        pub f47: i16,
        pub f46: Vec<u32>,
        pub f45: u16,
        pub f44: String,
        pub f43: [i32; 4],
        pub f42: u64,
        pub f41: i16,
        pub f40: i64,
        pub f39: String,
        pub f38: u64,
        pub f37: [u16; 17],
        pub f36: u8,
        pub f35: f64,
        pub f34: [u16; 10],
        pub f33: String,
        pub f32: [i16; 8],
        pub f31: Vec<i64>,
        pub f30: String,
        pub f29: String,
        pub f28: Vec<i16>,
        pub f27: i32,
        pub f26: [u64; 16],
        pub f25: i32,
        pub f24: [u16; 10],
        pub f23: u32,
        pub f22: String,
        pub f21: i8,
        pub f20: Vec<u16>,
        pub f19: f64,
        pub f18: f64,
        pub f17: i16,
        pub f16: Vec<f64>,
        pub f15: bool,
        pub f14: String,
        pub f13: u16,
        pub f12: String,
        pub f11: String,
        pub f10: [u32; 10],
        pub f9: f64,
        pub f8: Vec<u8>,
        pub f7: f32,
        pub f6: String,
        pub f5: i16,
        pub f4: Vec<i64>,
        pub f3: i32,
        pub f2: [u32; 3],
        pub f1: [i32; 8],
        pub f0: bool,
    }
    impl Node for Iter {
        fn leaves(self, o: &mut Vec<V>) {
            self.f59.leaves(o);
            self.f58.leaves(o);
            self.f57.leaves(o);
            self.f56.leaves(o);
            self.f55.leaves(o);
            self.f54.leaves(o);
            self.f53.leaves(o);
            self.f52.leaves(o);
            self.f51.leaves(o);
            self.f50.leaves(o);
            self.f49.leaves(o);
            self.f48.leaves(o);
            self.f47.leaves(o);
            self.f46.leaves(o);
            self.f45.leaves(o);
            self.f44.leaves(o);
            self.f43.leaves(o);
            self.f42.leaves(o);
            self.f41.leaves(o);
            self.f40.leaves(o);
            self.f39.leaves(o);
            self.f38.leaves(o);
            self.f37.leaves(o);
            self.f36.leaves(o);
            self.f35.leaves(o);
            self.f34.leaves(o);
            self.f33.leaves(o);
            self.f32.leaves(o);
            self.f31.leaves(o);
            self.f30.leaves(o);
            self.f29.leaves(o);
            self.f28.leaves(o);
            self.f27.leaves(o);
            self.f26.leaves(o);
            self.f25.leaves(o);
            self.f24.leaves(o);
            self.f23.leaves(o);
            self.f22.leaves(o);
            self.f21.leaves(o);
            self.f20.leaves(o);
            self.f19.leaves(o);
            self.f18.leaves(o);
            self.f17.leaves(o);
            self.f16.leaves(o);
            self.f15.leaves(o);
            self.f14.leaves(o);
            self.f13.leaves(o);
            self.f12.leaves(o);
            self.f11.leaves(o);
            self.f10.leaves(o);
            self.f9.leaves(o);
            self.f8.leaves(o);
            self.f7.leaves(o);
            self.f6.leaves(o);
            self.f5.leaves(o);
            self.f4.leaves(o);
            self.f3.leaves(o);
            self.f2.leaves(o);
            self.f1.leaves(o);
            self.f0.leaves(o);
        }
    }
    impl Build for Iter {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Iter {
                f59: <String as Build>::build(it),
                f58: <Vec<f64> as Build>::build(it),
                f57: <String as Build>::build(it),
                f56: <u8 as Build>::build(it),
                f55: <f32 as Build>::build(it),
                f54: <i32 as Build>::build(it),
                f53: <i16 as Build>::build(it),
                f52: <u32 as Build>::build(it),
                f51: <Vec<f64> as Build>::build(it),
                f50: <Vec<u16> as Build>::build(it),
                f49: <i16 as Build>::build(it),
                f48: <i32 as Build>::build(it),
                f47: <i16 as Build>::build(it),
                f46: <Vec<u32> as Build>::build(it),
                f45: <u16 as Build>::build(it),
                f44: <String as Build>::build(it),
                f43: <[i32; 4] as Build>::build(it),
                f42: <u64 as Build>::build(it),
                f41: <i16 as Build>::build(it),
                f40: <i64 as Build>::build(it),
                f39: <String as Build>::build(it),
                f38: <u64 as Build>::build(it),
                f37: <[u16; 17] as Build>::build(it),
                f36: <u8 as Build>::build(it),
                f35: <f64 as Build>::build(it),
                f34: <[u16; 10] as Build>::build(it),
                f33: <String as Build>::build(it),
                f32: <[i16; 8] as Build>::build(it),
                f31: <Vec<i64> as Build>::build(it),
                f30: <String as Build>::build(it),
                f29: <String as Build>::build(it),
                f28: <Vec<i16> as Build>::build(it),
                f27: <i32 as Build>::build(it),
                f26: <[u64; 16] as Build>::build(it),
                f25: <i32 as Build>::build(it),
                f24: <[u16; 10] as Build>::build(it),
                f23: <u32 as Build>::build(it),
                f22: <String as Build>::build(it),
                f21: <i8 as Build>::build(it),
                f20: <Vec<u16> as Build>::build(it),
                f19: <f64 as Build>::build(it),
                f18: <f64 as Build>::build(it),
                f17: <i16 as Build>::build(it),
                f16: <Vec<f64> as Build>::build(it),
                f15: <bool as Build>::build(it),
                f14: <String as Build>::build(it),
                f13: <u16 as Build>::build(it),
                f12: <String as Build>::build(it),
                f11: <String as Build>::build(it),
                f10: <[u32; 10] as Build>::build(it),
                f9: <f64 as Build>::build(it),
                f8: <Vec<u8> as Build>::build(it),
                f7: <f32 as Build>::build(it),
                f6: <String as Build>::build(it),
                f5: <i16 as Build>::build(it),
                f4: <Vec<i64> as Build>::build(it),
                f3: <i32 as Build>::build(it),
                f2: <[u32; 3] as Build>::build(it),
                f1: <[i32; 8] as Build>::build(it),
                f0: <bool as Build>::build(it),
            }
        }
    }
}

pub mod m2 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Vertex {
        pub func: Vec<u64>,
        pub pos: i32,
        pub c: f64,
    }
    impl Node for Vertex {
        fn leaves(self, o: &mut Vec<V>) {
            self.func.leaves(o);
            self.pos.leaves(o);
            self.c.leaves(o);
        }
    }
    impl Build for Vertex {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Vertex {
                func: <Vec<u64> as Build>::build(it),
                pos: <i32 as Build>::build(it),
                c: <f64 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Hit {
        pub a: Vec<i64>,
        pub r#type: u64,
        pub xi: f32,
        pub z: String,
        pub sender: i16,
    }
    impl Node for Hit {
        fn leaves(self, o: &mut Vec<V>) {
            self.a.leaves(o);
            self.r#type.leaves(o);
            self.xi.leaves(o);
            self.z.leaves(o);
            self.sender.leaves(o);
        }
    }
    impl Build for Hit {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Hit {
                a: <Vec<i64> as Build>::build(it),
                r#type: <u64 as Build>::build(it),
                xi: <f32 as Build>::build(it),
                z: <String as Build>::build(it),
                sender: <i16 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Header {
        pub receiver: Vertex,
        pub it: Hit,
    }
    impl Node for Header {
        fn leaves(self, o: &mut Vec<V>) {
            self.receiver.leaves(o);
            self.it.leaves(o);
        }
    }
    impl Build for Header {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Header {
                receiver: <Vertex as Build>::build(it),
                it: <Hit as Build>::build(it),
            }
        }
    }
}

pub mod m3 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Cell2 {
        pub value: Vec<i32>,
    }
    impl Node for Cell2 {
        fn leaves(self, o: &mut Vec<V>) {
            self.value.leaves(o);
        }
    }
    impl Build for Cell2 {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Cell2 {
                value: <Vec<i32> as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Point {
        pub i: Cell2,
        pub y: Vec<f64>,
    }
    impl Node for Point {
        fn leaves(self, o: &mut Vec<V>) {
            self.i.leaves(o);
            self.y.leaves(o);
        }
    }
    impl Build for Point {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Point {
                i: <Cell2 as Build>::build(it),
                y: <Vec<f64> as Build>::build(it),
            }
        }
    }
}

pub mod m4 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Run {
        pub pos: bool,
    }
    impl Node for Run {
        fn leaves(self, o: &mut Vec<V>) {
            self.pos.leaves(o);
        }
    }
    impl Build for Run {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Run {
                pos: <bool as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Cell2 {
        pub x2: Run,
        pub x10: i8,
        pub r#type: String,
    }
    impl Node for Cell2 {
        fn leaves(self, o: &mut Vec<V>) {
            self.x2.leaves(o);
            self.x10.leaves(o);
            self.r#type.leaves(o);
        }
    }
    impl Build for Cell2 {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Cell2 {
                x2: <Run as Build>::build(it),
                x10: <i8 as Build>::build(it),
                r#type: <String as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Vertex {
        pub tree: f32,
        pub id: Cell2,
        pub it: String,
    }
    impl Node for Vertex {
        fn leaves(self, o: &mut Vec<V>) {
            self.tree.leaves(o);
            self.id.leaves(o);
            self.it.leaves(o);
        }
    }
    impl Build for Vertex {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Vertex {
                tree: <f32 as Build>::build(it),
                id: <Cell2 as Build>::build(it),
                it: <String as Build>::build(it),
            }
        }
    }
}

pub mod m5 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Hit {
        pub branch_name: String,
        pub x2: [f32; 5],
    }
    impl Node for Hit {
        fn leaves(self, o: &mut Vec<V>) {
            self.branch_name.leaves(o);
            self.x2.leaves(o);
        }
    }
    impl Build for Hit {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Hit {
                branch_name: <String as Build>::build(it),
                x2: <[f32; 5] as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Rect {
        pub ret: u8,
        pub next: Hit,
        pub channel: u8,
    }
    impl Node for Rect {
        fn leaves(self, o: &mut Vec<V>) {
            self.ret.leaves(o);
            self.next.leaves(o);
            self.channel.leaves(o);
        }
    }
    impl Build for Rect {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Rect {
                ret: <u8 as Build>::build(it),
                next: <Hit as Build>::build(it),
                channel: <u8 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Channel {
        pub z: Vec<i8>,
        pub type_name: [i32; 31],
        pub x: Vec<u16>,
        pub x1: [u64; 8],
        pub i: Vec<i16>,
        pub branch_name: u8,
        pub energy: i32,
    }
    impl Node for Channel {
        fn leaves(self, o: &mut Vec<V>) {
            self.z.leaves(o);
            self.type_name.leaves(o);
            self.x.leaves(o);
            self.x1.leaves(o);
            self.i.leaves(o);
            self.branch_name.leaves(o);
            self.energy.leaves(o);
        }
    }
    impl Build for Channel {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Channel {
                z: <Vec<i8> as Build>::build(it),
                type_name: <[i32; 31] as Build>::build(it),
                x: <Vec<u16> as Build>::build(it),
                x1: <[u64; 8] as Build>::build(it),
                i: <Vec<i16> as Build>::build(it),
                branch_name: <u8 as Build>::build(it),
                energy: <i32 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Cell2 {
        pub r#type: Vec<u64>,
        pub x: bool,
        pub struct_instance: u16,
        pub long_field_name_to_be_stored_as_a_column: [f64; 32],
        pub receiver: i16,
        pub dir: [i8; 10],
        pub p: u8,
    }
    impl Node for Cell2 {
        fn leaves(self, o: &mut Vec<V>) {
            self.r#type.leaves(o);
            self.x.leaves(o);
            self.struct_instance.leaves(o);
            self.long_field_name_to_be_stored_as_a_column.leaves(o);
            self.receiver.leaves(o);
            self.dir.leaves(o);
            self.p.leaves(o);
        }
    }
    impl Build for Cell2 {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Cell2 {
                r#type: <Vec<u64> as Build>::build(it),
                x: <bool as Build>::build(it),
                struct_instance: <u16 as Build>::build(it),
                long_field_name_to_be_stored_as_a_column: <[f64; 32] as Build>::build(it),
                receiver: <i16 as Build>::build(it),
                dir: <[i8; 10] as Build>::build(it),
                p: <u8 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Event {
        pub time: Channel,
        pub v: Cell2,
        pub x1: u16,
        pub r#move: u64,
        pub func: f32,
    }
    impl Node for Event {
        fn leaves(self, o: &mut Vec<V>) {
            self.time.leaves(o);
            self.v.leaves(o);
            self.x1.leaves(o);
            self.r#move.leaves(o);
            self.func.leaves(o);
        }
    }
    impl Build for Event {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Event {
                time: <Channel as Build>::build(it),
                v: <Cell2 as Build>::build(it),
                x1: <u16 as Build>::build(it),
                r#move: <u64 as Build>::build(it),
                func: <f32 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Sender {
        pub sender: String,
        pub inner: i8,
    }
    impl Node for Sender {
        fn leaves(self, o: &mut Vec<V>) {
            self.sender.leaves(o);
            self.inner.leaves(o);
        }
    }
    impl Build for Sender {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Sender {
                sender: <String as Build>::build(it),
                inner: <i8 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Inner {
        pub sender: [u64; 10],
    }
    impl Node for Inner {
        fn leaves(self, o: &mut Vec<V>) {
            self.sender.leaves(o);
        }
    }
    impl Build for Inner {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Inner {
                sender: <[u64; 10] as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Point {
        pub dir: i32,
    }
    impl Node for Point {
        fn leaves(self, o: &mut Vec<V>) {
            self.dir.leaves(o);
        }
    }
    impl Build for Point {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Point {
                dir: <i32 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Vertex {
        pub nhits: Inner,
        pub i: Vec<i64>,
        pub x: Point,
        pub r#loop: u16,
    }
    impl Node for Vertex {
        fn leaves(self, o: &mut Vec<V>) {
            self.nhits.leaves(o);
            self.i.leaves(o);
            self.x.leaves(o);
            self.r#loop.leaves(o);
        }
    }
    impl Build for Vertex {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Vertex {
                nhits: <Inner as Build>::build(it),
                i: <Vec<i64> as Build>::build(it),
                x: <Point as Build>::build(it),
                r#loop: <u16 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Slice3 {
        pub next: Rect,
        pub type_name: Event,
        pub long_field_name_to_be_stored_as_a_column: [u32; 10],
        pub pos: Sender,
        pub z: Vec<i16>,
        pub r#loop: bool,
        pub x1: Vertex,
    }
    impl Node for Slice3 {
        fn leaves(self, o: &mut Vec<V>) {
            self.next.leaves(o);
            self.type_name.leaves(o);
            self.long_field_name_to_be_stored_as_a_column.leaves(o);
            self.pos.leaves(o);
            self.z.leaves(o);
            self.r#loop.leaves(o);
            self.x1.leaves(o);
        }
    }
    impl Build for Slice3 {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Slice3 {
                next: <Rect as Build>::build(it),
                type_name: <Event as Build>::build(it),
                long_field_name_to_be_stored_as_a_column: <[u32; 10] as Build>::build(it),
                pos: <Sender as Build>::build(it),
                z: <Vec<i16> as Build>::build(it),
                r#loop: <bool as Build>::build(it),
                x1: <Vertex as Build>::build(it),
            }
        }
    }
}

pub mod m6 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Hit {
        pub flags: [i16; 16],
    }
    impl Node for Hit {
        fn leaves(self, o: &mut Vec<V>) {
            self.flags.leaves(o);
        }
    }
    impl Build for Hit {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Hit {
                flags: <[i16; 16] as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Vertex {
        pub pos: Hit,
    }
    impl Node for Vertex {
        fn leaves(self, o: &mut Vec<V>) {
            self.pos.leaves(o);
        }
    }
    impl Build for Vertex {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Vertex {
                pos: <Hit as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Receiver {
        pub long_field_name_to_be_stored_as_a_column: [i64; 7],
        pub r#move: Vec<u16>,
        pub y: String,
        pub it: String,
        pub tree: String,
    }
    impl Node for Receiver {
        fn leaves(self, o: &mut Vec<V>) {
            self.long_field_name_to_be_stored_as_a_column.leaves(o);
            self.r#move.leaves(o);
            self.y.leaves(o);
            self.it.leaves(o);
            self.tree.leaves(o);
        }
    }
    impl Build for Receiver {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Receiver {
                long_field_name_to_be_stored_as_a_column: <[i64; 7] as Build>::build(it),
                r#move: <Vec<u16> as Build>::build(it),
                y: <String as Build>::build(it),
                it: <String as Build>::build(it),
                tree: <String as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Event {
        pub a: Receiver,
        pub r#match: String,
    }
    impl Node for Event {
        fn leaves(self, o: &mut Vec<V>) {
            self.a.leaves(o);
            self.r#match.leaves(o);
        }
    }
    impl Build for Event {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Event {
                a: <Receiver as Build>::build(it),
                r#match: <String as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Channel {
        pub _u: Vec<i64>,
        pub nhits: Vertex,
        pub tree: Event,
    }
    impl Node for Channel {
        fn leaves(self, o: &mut Vec<V>) {
            self._u.leaves(o);
            self.nhits.leaves(o);
            self.tree.leaves(o);
        }
    }
    impl Build for Channel {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Channel {
                _u: <Vec<i64> as Build>::build(it),
                nhits: <Vertex as Build>::build(it),
                tree: <Event as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Run {
        pub c: Channel,
    }
    impl Node for Run {
        fn leaves(self, o: &mut Vec<V>) {
            self.c.leaves(o);
        }
    }
    impl Build for Run {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Run {
                c: <Channel as Build>::build(it),
            }
        }
    }
}

pub mod m7 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Sender {
        pub x1: [u8; 16],
        pub r#type: String,
        pub type_name: i8,
        pub xi: [i16; 10],
        pub it: [bool; 3],
    }
    impl Node for Sender {
        fn leaves(self, o: &mut Vec<V>) {
            self.x1.leaves(o);
            self.r#type.leaves(o);
            self.type_name.leaves(o);
            self.xi.leaves(o);
            self.it.leaves(o);
        }
    }
    impl Build for Sender {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Sender {
                x1: <[u8; 16] as Build>::build(it),
                r#type: <String as Build>::build(it),
                type_name: <i8 as Build>::build(it),
                xi: <[i16; 10] as Build>::build(it),
                it: <[bool; 3] as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Vertex {
        pub energy: u64,
        pub x1: u8,
        pub q: String,
        pub xi: String,
    }
    impl Node for Vertex {
        fn leaves(self, o: &mut Vec<V>) {
            self.energy.leaves(o);
            self.x1.leaves(o);
            self.q.leaves(o);
            self.xi.leaves(o);
        }
    }
    impl Build for Vertex {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Vertex {
                energy: <u64 as Build>::build(it),
                x1: <u8 as Build>::build(it),
                q: <String as Build>::build(it),
                xi: <String as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Receiver {
        pub c: Sender,
        pub sender: String,
        pub ret: Vertex,
    }
    impl Node for Receiver {
        fn leaves(self, o: &mut Vec<V>) {
            self.c.leaves(o);
            self.sender.leaves(o);
            self.ret.leaves(o);
        }
    }
    impl Build for Receiver {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Receiver {
                c: <Sender as Build>::build(it),
                sender: <String as Build>::build(it),
                ret: <Vertex as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Event {
        pub branch_name: f64,
    }
    impl Node for Event {
        fn leaves(self, o: &mut Vec<V>) {
            self.branch_name.leaves(o);
        }
    }
    impl Build for Event {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Event {
                branch_name: <f64 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Hit {
        pub T1: i8,
        pub struct_instance: bool,
    }
    impl Node for Hit {
        fn leaves(self, o: &mut Vec<V>) {
            self.T1.leaves(o);
            self.struct_instance.leaves(o);
        }
    }
    impl Build for Hit {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Hit {
                T1: <i8 as Build>::build(it),
                struct_instance: <bool as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Channel {
        pub it: Hit,
        pub s: u64,
    }
    impl Node for Channel {
        fn leaves(self, o: &mut Vec<V>) {
            self.it.leaves(o);
            self.s.leaves(o);
        }
    }
    impl Build for Channel {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Channel {
                it: <Hit as Build>::build(it),
                s: <u64 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Header {
        pub branch_name: Receiver,
        pub tree: Event,
        pub _u: i8,
        pub r#type: Channel,
    }
    impl Node for Header {
        fn leaves(self, o: &mut Vec<V>) {
            self.branch_name.leaves(o);
            self.tree.leaves(o);
            self._u.leaves(o);
            self.r#type.leaves(o);
        }
    }
    impl Build for Header {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Header {
                branch_name: <Receiver as Build>::build(it),
                tree: <Event as Build>::build(it),
                _u: <i8 as Build>::build(it),
                r#type: <Channel as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Deep {
        pub type_name: Vec<f64>,
        pub flags: String,
        pub r#type: Header,
    }
    impl Node for Deep {
        fn leaves(self, o: &mut Vec<V>) {
            self.type_name.leaves(o);
            self.flags.leaves(o);
            self.r#type.leaves(o);
        }
    }
    impl Build for Deep {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Deep {
                type_name: <Vec<f64> as Build>::build(it),
                flags: <String as Build>::build(it),
                r#type: <Header as Build>::build(it),
            }
        }
    }
}

pub mod m8 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Rect {
        pub pos: Vec<u32>,
    }
    impl Node for Rect {
        fn leaves(self, o: &mut Vec<V>) {
            self.pos.leaves(o);
        }
    }
    impl Build for Rect {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Rect {
                pos: <Vec<u32> as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Vertex {
        pub z: Rect,
    }
    impl Node for Vertex {
        fn leaves(self, o: &mut Vec<V>) {
            self.z.leaves(o);
        }
    }
    impl Build for Vertex {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Vertex {
                z: <Rect as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Iter {
        pub type_name: String,
    }
    impl Node for Iter {
        fn leaves(self, o: &mut Vec<V>) {
            self.type_name.leaves(o);
        }
    }
    impl Build for Iter {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Iter {
                type_name: <String as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Inner {
        pub p: [i32; 31],
        pub r#loop: i8,
    }
    impl Node for Inner {
        fn leaves(self, o: &mut Vec<V>) {
            self.p.leaves(o);
            self.r#loop.leaves(o);
        }
    }
    impl Build for Inner {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Inner {
                p: <[i32; 31] as Build>::build(it),
                r#loop: <i8 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Slice3 {
        pub dir: String,
        pub func: u8,
    }
    impl Node for Slice3 {
        fn leaves(self, o: &mut Vec<V>) {
            self.dir.leaves(o);
            self.func.leaves(o);
        }
    }
    impl Build for Slice3 {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Slice3 {
                dir: <String as Build>::build(it),
                func: <u8 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Point {
        pub i: u32,
    }
    impl Node for Point {
        fn leaves(self, o: &mut Vec<V>) {
            self.i.leaves(o);
        }
    }
    impl Build for Point {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Point {
                i: <u32 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Deep {
        pub tree: Vec<u16>,
    }
    impl Node for Deep {
        fn leaves(self, o: &mut Vec<V>) {
            self.tree.leaves(o);
        }
    }
    impl Build for Deep {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Deep {
                tree: <Vec<u16> as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Header {
        pub tree: [u64; 16],
        pub x10: u8,
    }
    impl Node for Header {
        fn leaves(self, o: &mut Vec<V>) {
            self.tree.leaves(o);
            self.x10.leaves(o);
        }
    }
    impl Build for Header {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Header {
                tree: <[u64; 16] as Build>::build(it),
                x10: <u8 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Hit {
        pub struct_instance: Slice3,
        pub id: [i64; 10],
        pub flags: Point,
        pub field_name: f64,
        pub energy: Deep,
        pub it: Header,
        pub data: [u8; 31],
    }
    impl Node for Hit {
        fn leaves(self, o: &mut Vec<V>) {
            self.struct_instance.leaves(o);
            self.id.leaves(o);
            self.flags.leaves(o);
            self.field_name.leaves(o);
            self.energy.leaves(o);
            self.it.leaves(o);
            self.data.leaves(o);
        }
    }
    impl Build for Hit {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Hit {
                struct_instance: <Slice3 as Build>::build(it),
                id: <[i64; 10] as Build>::build(it),
                flags: <Point as Build>::build(it),
                field_name: <f64 as Build>::build(it),
                energy: <Deep as Build>::build(it),
                it: <Header as Build>::build(it),
                data: <[u8; 31] as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Channel {
        pub _u: f32,
    }
    impl Node for Channel {
        fn leaves(self, o: &mut Vec<V>) {
            self._u.leaves(o);
        }
    }
    impl Build for Channel {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Channel {
                _u: <f32 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Cell2 {
        pub b: String,
        pub long_field_name_to_be_stored_as_a_column: u16,
    }
    impl Node for Cell2 {
        fn leaves(self, o: &mut Vec<V>) {
            self.b.leaves(o);
            self.long_field_name_to_be_stored_as_a_column.leaves(o);
        }
    }
    impl Build for Cell2 {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Cell2 {
                b: <String as Build>::build(it),
                long_field_name_to_be_stored_as_a_column: <u16 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Track {
        pub y: [f64; 32],
        pub dir: Channel,
        pub r#move: Vec<i16>,
        pub time: [f32; 10],
        pub next: String,
        pub c: Cell2,
        pub branch_name: Vec<i64>,
    }
    impl Node for Track {
        fn leaves(self, o: &mut Vec<V>) {
            self.y.leaves(o);
            self.dir.leaves(o);
            self.r#move.leaves(o);
            self.time.leaves(o);
            self.next.leaves(o);
            self.c.leaves(o);
            self.branch_name.leaves(o);
        }
    }
    impl Build for Track {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Track {
                y: <[f64; 32] as Build>::build(it),
                dir: <Channel as Build>::build(it),
                r#move: <Vec<i16> as Build>::build(it),
                time: <[f32; 10] as Build>::build(it),
                next: <String as Build>::build(it),
                c: <Cell2 as Build>::build(it),
                branch_name: <Vec<i64> as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Event {
        pub xi: String,
        pub branch_name: String,
    }
    impl Node for Event {
        fn leaves(self, o: &mut Vec<V>) {
            self.xi.leaves(o);
            self.branch_name.leaves(o);
        }
    }
    impl Build for Event {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Event {
                xi: <String as Build>::build(it),
                branch_name: <String as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Run {
        pub c: Hit,
        pub branch_name: Track,
        pub nhits: bool,
        pub y: Event,
        pub current: Vec<u16>,
    }
    impl Node for Run {
        fn leaves(self, o: &mut Vec<V>) {
            self.c.leaves(o);
            self.branch_name.leaves(o);
            self.nhits.leaves(o);
            self.y.leaves(o);
            self.current.leaves(o);
        }
    }
    impl Build for Run {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Run {
                c: <Hit as Build>::build(it),
                branch_name: <Track as Build>::build(it),
                nhits: <bool as Build>::build(it),
                y: <Event as Build>::build(it),
                current: <Vec<u16> as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Sender {
        pub branch_name: Run,
        pub id: u64,
    }
    impl Node for Sender {
        fn leaves(self, o: &mut Vec<V>) {
            self.branch_name.leaves(o);
            self.id.leaves(o);
        }
    }
    impl Build for Sender {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Sender {
                branch_name: <Run as Build>::build(it),
                id: <u64 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Receiver {
        pub field_name: Vertex,
        pub data: String,
        pub id: Iter,
        pub tree: Inner,
        pub current: f64,
        pub i: Sender,
        pub v: String,
    }
    impl Node for Receiver {
        fn leaves(self, o: &mut Vec<V>) {
            self.field_name.leaves(o);
            self.data.leaves(o);
            self.id.leaves(o);
            self.tree.leaves(o);
            self.current.leaves(o);
            self.i.leaves(o);
            self.v.leaves(o);
        }
    }
    impl Build for Receiver {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Receiver {
                field_name: <Vertex as Build>::build(it),
                data: <String as Build>::build(it),
                id: <Iter as Build>::build(it),
                tree: <Inner as Build>::build(it),
                current: <f64 as Build>::build(it),
                i: <Sender as Build>::build(it),
                v: <String as Build>::build(it),
            }
        }
    }
}

pub mod m9 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Hit {
        pub x1: [bool; 5],
        pub r#move: u64,
        pub func: [i8; 2],
    }
    impl Node for Hit {
        fn leaves(self, o: &mut Vec<V>) {
            self.x1.leaves(o);
            self.r#move.leaves(o);
            self.func.leaves(o);
        }
    }
    impl Build for Hit {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Hit {
                x1: <[bool; 5] as Build>::build(it),
                r#move: <u64 as Build>::build(it),
                func: <[i8; 2] as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Vertex {
        pub x2: Hit,
    }
    impl Node for Vertex {
        fn leaves(self, o: &mut Vec<V>) {
            self.x2.leaves(o);
        }
    }
    impl Build for Vertex {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Vertex {
                x2: <Hit as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Rect {
        pub v: Vertex,
        pub current: [i8; 32],
        pub func: Vec<f32>,
    }
    impl Node for Rect {
        fn leaves(self, o: &mut Vec<V>) {
            self.v.leaves(o);
            self.current.leaves(o);
            self.func.leaves(o);
        }
    }
    impl Build for Rect {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Rect {
                v: <Vertex as Build>::build(it),
                current: <[i8; 32] as Build>::build(it),
                func: <Vec<f32> as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Sender {
        pub y: i16,
    }
    impl Node for Sender {
        fn leaves(self, o: &mut Vec<V>) {
            self.y.leaves(o);
        }
    }
    impl Build for Sender {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Sender {
                y: <i16 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Point {
        pub inner: Sender,
    }
    impl Node for Point {
        fn leaves(self, o: &mut Vec<V>) {
            self.inner.leaves(o);
        }
    }
    impl Build for Point {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Point {
                inner: <Sender as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Iter {
        pub T1: Point,
    }
    impl Node for Iter {
        fn leaves(self, o: &mut Vec<V>) {
            self.T1.leaves(o);
        }
    }
    impl Build for Iter {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Iter {
                T1: <Point as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Deep {
        pub value: Iter,
    }
    impl Node for Deep {
        fn leaves(self, o: &mut Vec<V>) {
            self.value.leaves(o);
        }
    }
    impl Build for Deep {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Deep {
                value: <Iter as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Receiver {
        pub inner: u8,
    }
    impl Node for Receiver {
        fn leaves(self, o: &mut Vec<V>) {
            self.inner.leaves(o);
        }
    }
    impl Build for Receiver {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Receiver {
                inner: <u8 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Slice3 {
        pub field_name: Vec<i64>,
        pub T1: bool,
    }
    impl Node for Slice3 {
        fn leaves(self, o: &mut Vec<V>) {
            self.field_name.leaves(o);
            self.T1.leaves(o);
        }
    }
    impl Build for Slice3 {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Slice3 {
                field_name: <Vec<i64> as Build>::build(it),
                T1: <bool as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Event {
        pub q: [i32; 2],
        pub value: Vec<i32>,
        pub tree: u16,
        pub a: u32,
        pub field_name: Vec<i16>,
        pub xi: i16,
        pub flags: u16,
    }
    impl Node for Event {
        fn leaves(self, o: &mut Vec<V>) {
            self.q.leaves(o);
            self.value.leaves(o);
            self.tree.leaves(o);
            self.a.leaves(o);
            self.field_name.leaves(o);
            self.xi.leaves(o);
            self.flags.leaves(o);
        }
    }
    impl Build for Event {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Event {
                q: <[i32; 2] as Build>::build(it),
                value: <Vec<i32> as Build>::build(it),
                tree: <u16 as Build>::build(it),
                a: <u32 as Build>::build(it),
                field_name: <Vec<i16> as Build>::build(it),
                xi: <i16 as Build>::build(it),
                flags: <u16 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Header {
        pub y: String,
    }
    impl Node for Header {
        fn leaves(self, o: &mut Vec<V>) {
            self.y.leaves(o);
        }
    }
    impl Build for Header {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Header {
                y: <String as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Track {
        pub r#match: [i16; 8],
        pub v: Slice3,
        pub _u: Event,
        pub long_field_name_to_be_stored_as_a_column: Header,
        pub nhits: f32,
        pub r#type: [f32; 17],
        pub branch_name: Vec<f64>,
    }
    impl Node for Track {
        fn leaves(self, o: &mut Vec<V>) {
            self.r#match.leaves(o);
            self.v.leaves(o);
            self._u.leaves(o);
            self.long_field_name_to_be_stored_as_a_column.leaves(o);
            self.nhits.leaves(o);
            self.r#type.leaves(o);
            self.branch_name.leaves(o);
        }
    }
    impl Build for Track {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Track {
                r#match: <[i16; 8] as Build>::build(it),
                v: <Slice3 as Build>::build(it),
                _u: <Event as Build>::build(it),
                long_field_name_to_be_stored_as_a_column: <Header as Build>::build(it),
                nhits: <f32 as Build>::build(it),
                r#type: <[f32; 17] as Build>::build(it),
                branch_name: <Vec<f64> as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Channel {
        pub tree: Receiver,
        pub a: [bool; 3],
        pub it: Vec<i16>,
        pub s: Track,
        pub q: String,
    }
    impl Node for Channel {
        fn leaves(self, o: &mut Vec<V>) {
            self.tree.leaves(o);
            self.a.leaves(o);
            self.it.leaves(o);
            self.s.leaves(o);
            self.q.leaves(o);
        }
    }
    impl Build for Channel {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Channel {
                tree: <Receiver as Build>::build(it),
                a: <[bool; 3] as Build>::build(it),
                it: <Vec<i16> as Build>::build(it),
                s: <Track as Build>::build(it),
                q: <String as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Inner {
        pub z: Channel,
        pub x: u16,
    }
    impl Node for Inner {
        fn leaves(self, o: &mut Vec<V>) {
            self.z.leaves(o);
            self.x.leaves(o);
        }
    }
    impl Build for Inner {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Inner {
                z: <Channel as Build>::build(it),
                x: <u16 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Cell2 {
        pub it: Rect,
        pub next: Deep,
        pub func: Inner,
        pub i: [i64; 3],
    }
    impl Node for Cell2 {
        fn leaves(self, o: &mut Vec<V>) {
            self.it.leaves(o);
            self.next.leaves(o);
            self.func.leaves(o);
            self.i.leaves(o);
        }
    }
    impl Build for Cell2 {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Cell2 {
                it: <Rect as Build>::build(it),
                next: <Deep as Build>::build(it),
                func: <Inner as Build>::build(it),
                i: <[i64; 3] as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Run {
        pub time: Cell2,
    }
    impl Node for Run {
        fn leaves(self, o: &mut Vec<V>) {
            self.time.leaves(o);
        }
    }
    impl Build for Run {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Run {
                time: <Cell2 as Build>::build(it),
            }
        }
    }
}

pub mod m10 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Deep {
        pub struct_instance: u8,
        pub value: i64,
        pub c: u8,
        pub long_field_name_to_be_stored_as_a_column: [f32; 4],
    }
    impl Node for Deep {
        fn leaves(self, o: &mut Vec<V>) {
            self.struct_instance.leaves(o);
            self.value.leaves(o);
            self.c.leaves(o);
            self.long_field_name_to_be_stored_as_a_column.leaves(o);
        }
    }
    impl Build for Deep {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Deep {
                struct_instance: <u8 as Build>::build(it),
                value: <i64 as Build>::build(it),
                c: <u8 as Build>::build(it),
                long_field_name_to_be_stored_as_a_column: <[f32; 4] as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Sender {
        pub dir: [i64; 1],
        pub tree: [u32; 10],
    }
    impl Node for Sender {
        fn leaves(self, o: &mut Vec<V>) {
            self.dir.leaves(o);
            self.tree.leaves(o);
        }
    }
    impl Build for Sender {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Sender {
                dir: <[i64; 1] as Build>::build(it),
                tree: <[u32; 10] as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Vertex {
        pub data: Deep,
        pub c: Sender,
        pub ret: Vec<i64>,
    }
    impl Node for Vertex {
        fn leaves(self, o: &mut Vec<V>) {
            self.data.leaves(o);
            self.c.leaves(o);
            self.ret.leaves(o);
        }
    }
    impl Build for Vertex {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Vertex {
                data: <Deep as Build>::build(it),
                c: <Sender as Build>::build(it),
                ret: <Vec<i64> as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Channel {
        pub struct_instance: u64,
    }
    impl Node for Channel {
        fn leaves(self, o: &mut Vec<V>) {
            self.struct_instance.leaves(o);
        }
    }
    impl Build for Channel {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Channel {
                struct_instance: <u64 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Run {
        pub inner: Channel,
        pub v: u16,
    }
    impl Node for Run {
        fn leaves(self, o: &mut Vec<V>) {
            self.inner.leaves(o);
            self.v.leaves(o);
        }
    }
    impl Build for Run {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Run {
                inner: <Channel as Build>::build(it),
                v: <u16 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Receiver {
        pub energy: f32,
    }
    impl Node for Receiver {
        fn leaves(self, o: &mut Vec<V>) {
            self.energy.leaves(o);
        }
    }
    impl Build for Receiver {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Receiver {
                energy: <f32 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Track {
        pub r#match: bool,
    }
    impl Node for Track {
        fn leaves(self, o: &mut Vec<V>) {
            self.r#match.leaves(o);
        }
    }
    impl Build for Track {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Track {
                r#match: <bool as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Point {
        pub r#move: Vec<u64>,
        pub pos: String,
        pub i: String,
    }
    impl Node for Point {
        fn leaves(self, o: &mut Vec<V>) {
            self.r#move.leaves(o);
            self.pos.leaves(o);
            self.i.leaves(o);
        }
    }
    impl Build for Point {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Point {
                r#move: <Vec<u64> as Build>::build(it),
                pos: <String as Build>::build(it),
                i: <String as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Iter {
        pub current: Point,
        pub p: String,
    }
    impl Node for Iter {
        fn leaves(self, o: &mut Vec<V>) {
            self.current.leaves(o);
            self.p.leaves(o);
        }
    }
    impl Build for Iter {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Iter {
                current: <Point as Build>::build(it),
                p: <String as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Inner {
        pub flags: Run,
        pub x: Receiver,
        pub current: Track,
        pub ret: Iter,
    }
    impl Node for Inner {
        fn leaves(self, o: &mut Vec<V>) {
            self.flags.leaves(o);
            self.x.leaves(o);
            self.current.leaves(o);
            self.ret.leaves(o);
        }
    }
    impl Build for Inner {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Inner {
                flags: <Run as Build>::build(it),
                x: <Receiver as Build>::build(it),
                current: <Track as Build>::build(it),
                ret: <Iter as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Slice3 {
        pub sender: Inner,
        pub y: [f32; 10],
        pub r#move: i16,
    }
    impl Node for Slice3 {
        fn leaves(self, o: &mut Vec<V>) {
            self.sender.leaves(o);
            self.y.leaves(o);
            self.r#move.leaves(o);
        }
    }
    impl Build for Slice3 {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Slice3 {
                sender: <Inner as Build>::build(it),
                y: <[f32; 10] as Build>::build(it),
                r#move: <i16 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Header {
        pub data: Vec<u32>,
        pub y: u32,
    }
    impl Node for Header {
        fn leaves(self, o: &mut Vec<V>) {
            self.data.leaves(o);
            self.y.leaves(o);
        }
    }
    impl Build for Header {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Header {
                data: <Vec<u32> as Build>::build(it),
                y: <u32 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Rect {
        pub time: Header,
        pub tree: [u8; 10],
        pub receiver: bool,
        pub v: f32,
    }
    impl Node for Rect {
        fn leaves(self, o: &mut Vec<V>) {
            self.time.leaves(o);
            self.tree.leaves(o);
            self.receiver.leaves(o);
            self.v.leaves(o);
        }
    }
    impl Build for Rect {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Rect {
                time: <Header as Build>::build(it),
                tree: <[u8; 10] as Build>::build(it),
                receiver: <bool as Build>::build(it),
                v: <f32 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Cell2 {
        pub q: Vertex,
        pub field_name: Slice3,
        pub type_name: Rect,
        pub a: i16,
        pub x10: String,
    }
    impl Node for Cell2 {
        fn leaves(self, o: &mut Vec<V>) {
            self.q.leaves(o);
            self.field_name.leaves(o);
            self.type_name.leaves(o);
            self.a.leaves(o);
            self.x10.leaves(o);
        }
    }
    impl Build for Cell2 {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Cell2 {
                q: <Vertex as Build>::build(it),
                field_name: <Slice3 as Build>::build(it),
                type_name: <Rect as Build>::build(it),
                a: <i16 as Build>::build(it),
                x10: <String as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Event {
        pub c: Cell2,
        pub r#match: i32,
        pub energy: f32,
        pub a: String,
        pub func: u32,
    }
    impl Node for Event {
        fn leaves(self, o: &mut Vec<V>) {
            self.c.leaves(o);
            self.r#match.leaves(o);
            self.energy.leaves(o);
            self.a.leaves(o);
            self.func.leaves(o);
        }
    }
    impl Build for Event {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Event {
                c: <Cell2 as Build>::build(it),
                r#match: <i32 as Build>::build(it),
                energy: <f32 as Build>::build(it),
                a: <String as Build>::build(it),
                func: <u32 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Hit {
        pub c: String,
        pub tree: Event,
    }
    impl Node for Hit {
        fn leaves(self, o: &mut Vec<V>) {
            self.c.leaves(o);
            self.tree.leaves(o);
        }
    }
    impl Build for Hit {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Hit {
                c: <String as Build>::build(it),
                tree: <Event as Build>::build(it),
            }
        }
    }
}

pub mod m11 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Point {
        pub branch_name: i32,
        pub value: Vec<u8>,
        pub i: u64,
    }
    impl Node for Point {
        fn leaves(self, o: &mut Vec<V>) {
            self.branch_name.leaves(o);
            self.value.leaves(o);
            self.i.leaves(o);
        }
    }
    impl Build for Point {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Point {
                branch_name: <i32 as Build>::build(it),
                value: <Vec<u8> as Build>::build(it),
                i: <u64 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Event {
        pub channel: Point,
    }
    impl Node for Event {
        fn leaves(self, o: &mut Vec<V>) {
            self.channel.leaves(o);
        }
    }
    impl Build for Event {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Event {
                channel: <Point as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Channel {
        pub field_name: i16,
        pub func: Event,
    }
    impl Node for Channel {
        fn leaves(self, o: &mut Vec<V>) {
            self.field_name.leaves(o);
            self.func.leaves(o);
        }
    }
    impl Build for Channel {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Channel {
                field_name: <i16 as Build>::build(it),
                func: <Event as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Inner {
        pub id: u8,
    }
    impl Node for Inner {
        fn leaves(self, o: &mut Vec<V>) {
            self.id.leaves(o);
        }
    }
    impl Build for Inner {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Inner {
                id: <u8 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Receiver {
        pub ret: String,
        pub func: f64,
    }
    impl Node for Receiver {
        fn leaves(self, o: &mut Vec<V>) {
            self.ret.leaves(o);
            self.func.leaves(o);
        }
    }
    impl Build for Receiver {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Receiver {
                ret: <String as Build>::build(it),
                func: <f64 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Vertex {
        pub v: Inner,
        pub tree: Receiver,
    }
    impl Node for Vertex {
        fn leaves(self, o: &mut Vec<V>) {
            self.v.leaves(o);
            self.tree.leaves(o);
        }
    }
    impl Build for Vertex {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Vertex {
                v: <Inner as Build>::build(it),
                tree: <Receiver as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Hit {
        pub x10: Vec<i32>,
        pub c: i8,
        pub pos: [u64; 32],
    }
    impl Node for Hit {
        fn leaves(self, o: &mut Vec<V>) {
            self.x10.leaves(o);
            self.c.leaves(o);
            self.pos.leaves(o);
        }
    }
    impl Build for Hit {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Hit {
                x10: <Vec<i32> as Build>::build(it),
                c: <i8 as Build>::build(it),
                pos: <[u64; 32] as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Run {
        pub energy: i32,
        pub branch_name: Hit,
        pub p: [i16; 7],
    }
    impl Node for Run {
        fn leaves(self, o: &mut Vec<V>) {
            self.energy.leaves(o);
            self.branch_name.leaves(o);
            self.p.leaves(o);
        }
    }
    impl Build for Run {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Run {
                energy: <i32 as Build>::build(it),
                branch_name: <Hit as Build>::build(it),
                p: <[i16; 7] as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Header {
        pub x2: Vertex,
        pub z: Run,
        pub inner: String,
    }
    impl Node for Header {
        fn leaves(self, o: &mut Vec<V>) {
            self.x2.leaves(o);
            self.z.leaves(o);
            self.inner.leaves(o);
        }
    }
    impl Build for Header {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Header {
                x2: <Vertex as Build>::build(it),
                z: <Run as Build>::build(it),
                inner: <String as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Rect {
        pub field_name: u32,
        pub r#fn: Channel,
        pub r#move: bool,
        pub dir: Header,
        pub i: i16,
    }
    impl Node for Rect {
        fn leaves(self, o: &mut Vec<V>) {
            self.field_name.leaves(o);
            self.r#fn.leaves(o);
            self.r#move.leaves(o);
            self.dir.leaves(o);
            self.i.leaves(o);
        }
    }
    impl Build for Rect {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Rect {
                field_name: <u32 as Build>::build(it),
                r#fn: <Channel as Build>::build(it),
                r#move: <bool as Build>::build(it),
                dir: <Header as Build>::build(it),
                i: <i16 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Slice3 {
        pub inner: [f32; 32],
        pub ret: Vec<i32>,
    }
    impl Node for Slice3 {
        fn leaves(self, o: &mut Vec<V>) {
            self.inner.leaves(o);
            self.ret.leaves(o);
        }
    }
    impl Build for Slice3 {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Slice3 {
                inner: <[f32; 32] as Build>::build(it),
                ret: <Vec<i32> as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Track {
        pub r#loop: String,
        pub id: Rect,
        pub x10: Slice3,
        pub channel: [u8; 7],
        pub r#move: String,
    }
    impl Node for Track {
        fn leaves(self, o: &mut Vec<V>) {
            self.r#loop.leaves(o);
            self.id.leaves(o);
            self.x10.leaves(o);
            self.channel.leaves(o);
            self.r#move.leaves(o);
        }
    }
    impl Build for Track {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Track {
                r#loop: <String as Build>::build(it),
                id: <Rect as Build>::build(it),
                x10: <Slice3 as Build>::build(it),
                channel: <[u8; 7] as Build>::build(it),
                r#move: <String as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Iter {
        pub ret: Track,
        pub receiver: [bool; 17],
        pub channel: Vec<i64>,
        pub inner: f32,
    }
    impl Node for Iter {
        fn leaves(self, o: &mut Vec<V>) {
            self.ret.leaves(o);
            self.receiver.leaves(o);
            self.channel.leaves(o);
            self.inner.leaves(o);
        }
    }
    impl Build for Iter {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Iter {
                ret: <Track as Build>::build(it),
                receiver: <[bool; 17] as Build>::build(it),
                channel: <Vec<i64> as Build>::build(it),
                inner: <f32 as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Cell2 {
        pub func: Iter,
    }
    impl Node for Cell2 {
        fn leaves(self, o: &mut Vec<V>) {
            self.func.leaves(o);
        }
    }
    impl Build for Cell2 {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Cell2 {
                func: <Iter as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Deep {
        pub energy: [f64; 16],
        pub y: Cell2,
        pub pos: [i8; 3],
    }
    impl Node for Deep {
        fn leaves(self, o: &mut Vec<V>) {
            self.energy.leaves(o);
            self.y.leaves(o);
            self.pos.leaves(o);
        }
    }
    impl Build for Deep {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Deep {
                energy: <[f64; 16] as Build>::build(it),
                y: <Cell2 as Build>::build(it),
                pos: <[i8; 3] as Build>::build(it),
            }
        }
    }
    #[derive(ReadFromTree, WriteToTree)]
    pub struct Sender {
        pub b: Deep,
    }
    impl Node for Sender {
        fn leaves(self, o: &mut Vec<V>) {
            self.b.leaves(o);
        }
    }
    impl Build for Sender {
        fn build(it: &mut dyn Iterator<Item = V>) -> Self {
            Sender {
                b: <Deep as Build>::build(it),
            }
        }
    }
}

pub mod m12 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "pre.")]
    pub struct Event {
        #[oxyroot(rename = "fX26")]
        pub xi: bool,
        pub dir: i64,
        pub sender: [i32; 32],
        #[oxyroot(absolute_name = "abs_921")]
        pub i: [bool; 1],
        pub long_field_name_to_be_stored_as_a_column: u64,
    }
    impl Node for Event {
        fn leaves(self, o: &mut Vec<V>) {
            self.xi.leaves(o);
            self.dir.leaves(o);
            self.sender.leaves(o);
            self.i.leaves(o);
            self.long_field_name_to_be_stored_as_a_column.leaves(o);
        }
    }
}

pub mod m13 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree)]
    pub struct Channel {
        pub T1: String,
        #[oxyroot(rename = "Other.17")]
        pub q: i8,
        pub inner: [i8; 17],
    }
    impl Node for Channel {
        fn leaves(self, o: &mut Vec<V>) {
            self.T1.leaves(o);
            self.q.leaves(o);
            self.inner.leaves(o);
        }
    }
}

pub mod m14 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "m_")]
    pub struct Sender {
        pub r#type: [i64; 10],
        #[oxyroot(rename = "zzz50")]
        pub energy: String,
        pub a: Vec<Vec<i16>>,
        #[oxyroot(branch_prefix = "L")]
        pub y: HashSet<i32>,
        pub nhits: String,
        pub func: f64,
        pub sender: u32,
    }
    impl Node for Sender {
        fn leaves(self, o: &mut Vec<V>) {
            self.r#type.leaves(o);
            self.energy.leaves(o);
            self.a.leaves(o);
            self.y.leaves(o);
            self.nhits.leaves(o);
            self.func.leaves(o);
            self.sender.leaves(o);
        }
    }
}

pub mod m15 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree)]
    pub struct Track {
        pub x: HashMap<i32, f64>,
        pub p: i16,
    }
    impl Node for Track {
        fn leaves(self, o: &mut Vec<V>) {
            self.x.leaves(o);
            self.p.leaves(o);
        }
    }
}

pub mod m16 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "P")]
    pub struct Sender {
        pub _u: HashSet<i32>,
    }
    impl Node for Sender {
        fn leaves(self, o: &mut Vec<V>) {
            self._u.leaves(o);
        }
    }
}

pub mod m17 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "g_", slicable)]
    pub struct Rect {
        pub tree: i8,
        pub s: u8,
    }
    impl Node for Rect {
        fn leaves(self, o: &mut Vec<V>) {
            self.tree.leaves(o);
            self.s.leaves(o);
        }
    }
    impl Node for Vec<Rect> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 2, o)
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "g_", slicable)]
    pub struct Receiver {
        #[oxyroot(branch_prefix = "l_")]
        pub v: i16,
        #[oxyroot(branch_prefix = "L")]
        pub id: i16,
        pub energy: bool,
    }
    impl Node for Receiver {
        fn leaves(self, o: &mut Vec<V>) {
            self.v.leaves(o);
            self.id.leaves(o);
            self.energy.leaves(o);
        }
    }
    impl Node for Vec<Receiver> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 3, o)
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "pre.", slicable)]
    pub struct Event {
        pub func: u32,
        #[oxyroot(absolute_name = "abs_120")]
        pub sender: i16,
        #[oxyroot(rename = "fX1", branch_prefix = "L")]
        pub nhits: i64,
        pub c: i32,
    }
    impl Node for Event {
        fn leaves(self, o: &mut Vec<V>) {
            self.func.leaves(o);
            self.sender.leaves(o);
            self.nhits.leaves(o);
            self.c.leaves(o);
        }
    }
    impl Node for Vec<Event> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 4, o)
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "g_", slicable)]
    pub struct Vertex {
        pub r#type: f64,
        pub next: i16,
    }
    impl Node for Vertex {
        fn leaves(self, o: &mut Vec<V>) {
            self.r#type.leaves(o);
            self.next.leaves(o);
        }
    }
    impl Node for Vec<Vertex> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 2, o)
        }
    }
    #[derive(ReadFromTree)]
    pub struct Run {
        pub r#loop: Vec<f64>,
        pub _u: u64,
        pub x2: String,
        #[oxyroot(slicable = "Rect")]
        pub z: Vec<Rect>,
        #[oxyroot(absolute_name = "abs_512", slicable = "Receiver")]
        pub r#match: Vec<Receiver>,
        #[oxyroot(rename = "rn_59", branch_prefix = "l_")]
        pub r#fn: Event,
        #[oxyroot(branch_prefix = "L", slicable = "Vertex")]
        pub T1: Vec<Vertex>,
    }
    impl Node for Run {
        fn leaves(self, o: &mut Vec<V>) {
            self.r#loop.leaves(o);
            self._u.leaves(o);
            self.x2.leaves(o);
            self.z.leaves(o);
            self.r#match.leaves(o);
            self.r#fn.leaves(o);
            self.T1.leaves(o);
        }
    }
}

pub mod m18 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree)]
    pub struct Event {
        #[oxyroot(rename = "Other.7", branch_prefix = "L")]
        pub z: u32,
        #[oxyroot(absolute_name = "Z248")]
        pub current: Vec<String>,
    }
    impl Node for Event {
        fn leaves(self, o: &mut Vec<V>) {
            self.z.leaves(o);
            self.current.leaves(o);
        }
    }
}

pub mod m19 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "P")]
    pub struct Sender {
        pub v: [u32; 16],
    }
    impl Node for Sender {
        fn leaves(self, o: &mut Vec<V>) {
            self.v.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "P")]
    pub struct Header {
        pub a: Sender,
        pub q: [bool; 10],
    }
    impl Node for Header {
        fn leaves(self, o: &mut Vec<V>) {
            self.a.leaves(o);
            self.q.leaves(o);
        }
    }
}

pub mod m20 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "g_")]
    pub struct Header {
        #[oxyroot(rename = "rn_59", branch_prefix = "loc.")]
        pub z: [f64; 5],
        pub it: Vec<i16>,
        pub T1: Vec<i8>,
        pub a: [i8; 5],
        #[oxyroot(absolute_name = "Top.level925")]
        pub s: u8,
    }
    impl Node for Header {
        fn leaves(self, o: &mut Vec<V>) {
            self.z.leaves(o);
            self.it.leaves(o);
            self.T1.leaves(o);
            self.a.leaves(o);
            self.s.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    pub struct Slice3 {
        pub nhits: Header,
        pub z: Vec<f64>,
    }
    impl Node for Slice3 {
        fn leaves(self, o: &mut Vec<V>) {
            self.nhits.leaves(o);
            self.z.leaves(o);
        }
    }
}

pub mod m21 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "P", slicable)]
    pub struct Hit {
        pub energy: u32,
    }
    impl Node for Hit {
        fn leaves(self, o: &mut Vec<V>) {
            self.energy.leaves(o);
        }
    }
    impl Node for Vec<Hit> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 1, o)
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(slicable)]
    pub struct Iter {
        pub a: u64,
    }
    impl Node for Iter {
        fn leaves(self, o: &mut Vec<V>) {
            self.a.leaves(o);
        }
    }
    impl Node for Vec<Iter> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 1, o)
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "pre.")]
    pub struct Point {
        #[oxyroot(rename = "rn_4", branch_prefix = "L", slicable = "Hit")]
        pub type_name: Vec<Hit>,
        #[oxyroot(absolute_name = "Top.level202")]
        pub struct_instance: Iter,
    }
    impl Node for Point {
        fn leaves(self, o: &mut Vec<V>) {
            self.type_name.leaves(o);
            self.struct_instance.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(slicable)]
    pub struct Inner {
        #[oxyroot(branch_prefix = "l_")]
        pub ret: f64,
    }
    impl Node for Inner {
        fn leaves(self, o: &mut Vec<V>) {
            self.ret.leaves(o);
        }
    }
    impl Node for Vec<Inner> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 1, o)
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "m_", slicable)]
    pub struct Slice3 {
        pub i: u32,
        pub inner: f32,
        #[oxyroot(rename = "Other.15")]
        pub it: u16,
        #[oxyroot(rename = "fX96")]
        pub type_name: u32,
    }
    impl Node for Slice3 {
        fn leaves(self, o: &mut Vec<V>) {
            self.i.leaves(o);
            self.inner.leaves(o);
            self.it.leaves(o);
            self.type_name.leaves(o);
        }
    }
    impl Node for Vec<Slice3> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 4, o)
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "m_", slicable)]
    pub struct Run {
        pub receiver: u8,
        pub x10: f32,
        #[oxyroot(absolute_name = "abs_419")]
        pub _u: u64,
    }
    impl Node for Run {
        fn leaves(self, o: &mut Vec<V>) {
            self.receiver.leaves(o);
            self.x10.leaves(o);
            self._u.leaves(o);
        }
    }
    impl Node for Vec<Run> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 3, o)
        }
    }
    #[derive(ReadFromTree)]
    pub struct Track {
        pub r#loop: [u64; 32],
        pub a: Point,
        pub type_name: Vec<f64>,
        #[oxyroot(rename = "zzz73", slicable = "Inner")]
        pub s: Vec<Inner>,
        #[oxyroot(slicable = "Slice3")]
        pub data: Vec<Slice3>,
        #[oxyroot(slicable = "Run")]
        pub v: Vec<Run>,
        pub x: Vec<u32>,
    }
    impl Node for Track {
        fn leaves(self, o: &mut Vec<V>) {
            self.r#loop.leaves(o);
            self.a.leaves(o);
            self.type_name.leaves(o);
            self.s.leaves(o);
            self.data.leaves(o);
            self.v.leaves(o);
            self.x.leaves(o);
        }
    }
}

pub mod m22 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "m_", slicable)]
    pub struct Header {
        pub b: u32,
        pub x1: i64,
    }
    impl Node for Header {
        fn leaves(self, o: &mut Vec<V>) {
            self.b.leaves(o);
            self.x1.leaves(o);
        }
    }
    impl Node for Vec<Header> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 2, o)
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "g_")]
    pub struct Run {
        #[oxyroot(slicable = "Header")]
        pub type_name: Vec<Header>,
    }
    impl Node for Run {
        fn leaves(self, o: &mut Vec<V>) {
            self.type_name.leaves(o);
        }
    }
}

pub mod m23 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "g_", slicable)]
    pub struct Inner {
        pub type_name: u8,
        #[oxyroot(branch_prefix = "L")]
        pub r#type: i16,
        pub q: u32,
        pub x10: i32,
    }
    impl Node for Inner {
        fn leaves(self, o: &mut Vec<V>) {
            self.type_name.leaves(o);
            self.r#type.leaves(o);
            self.q.leaves(o);
            self.x10.leaves(o);
        }
    }
    impl Node for Vec<Inner> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 4, o)
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "g_")]
    pub struct Channel {
        pub flags: String,
        #[oxyroot(branch_prefix = "loc.")]
        pub long_field_name_to_be_stored_as_a_column: i16,
        pub x2: String,
    }
    impl Node for Channel {
        fn leaves(self, o: &mut Vec<V>) {
            self.flags.leaves(o);
            self.long_field_name_to_be_stored_as_a_column.leaves(o);
            self.x2.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "m_")]
    pub struct Cell2 {
        #[oxyroot(slicable = "Inner")]
        pub x2: Vec<Inner>,
        pub z: i32,
        pub id: Channel,
        pub r#loop: Vec<u16>,
    }
    impl Node for Cell2 {
        fn leaves(self, o: &mut Vec<V>) {
            self.x2.leaves(o);
            self.z.leaves(o);
            self.id.leaves(o);
            self.r#loop.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "m_")]
    pub struct Run {
        #[oxyroot(rename = "Other.97")]
        pub next: Cell2,
        #[oxyroot(rename = "fX50", branch_prefix = "loc.")]
        pub x10: i32,
        #[oxyroot(absolute_name = "Top.level684")]
        pub field_name: u32,
    }
    impl Node for Run {
        fn leaves(self, o: &mut Vec<V>) {
            self.next.leaves(o);
            self.x10.leaves(o);
            self.field_name.leaves(o);
        }
    }
}

pub mod m24 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "pre.")]
    pub struct Vertex {
        pub data: u8,
        pub current: String,
    }
    impl Node for Vertex {
        fn leaves(self, o: &mut Vec<V>) {
            self.data.leaves(o);
            self.current.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "g_")]
    pub struct Receiver {
        pub _u: Vec<bool>,
        pub value: String,
        pub inner: i16,
        pub x1: Vertex,
        pub sender: [i32; 5],
    }
    impl Node for Receiver {
        fn leaves(self, o: &mut Vec<V>) {
            self._u.leaves(o);
            self.value.leaves(o);
            self.inner.leaves(o);
            self.x1.leaves(o);
            self.sender.leaves(o);
        }
    }
}

pub mod m25 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "m_", slicable)]
    pub struct Inner {
        pub branch_name: u16,
        pub s: u8,
    }
    impl Node for Inner {
        fn leaves(self, o: &mut Vec<V>) {
            self.branch_name.leaves(o);
            self.s.leaves(o);
        }
    }
    impl Node for Vec<Inner> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 2, o)
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "pre.", slicable)]
    pub struct Track {
        pub current: i64,
        pub energy: i32,
        #[oxyroot(rename = "Other.19")]
        pub dir: i8,
        #[oxyroot(branch_prefix = "L")]
        pub ret: u32,
        #[oxyroot(absolute_name = "abs_506")]
        pub r#fn: f64,
        pub v: u8,
        pub func: f64,
    }
    impl Node for Track {
        fn leaves(self, o: &mut Vec<V>) {
            self.current.leaves(o);
            self.energy.leaves(o);
            self.dir.leaves(o);
            self.ret.leaves(o);
            self.r#fn.leaves(o);
            self.v.leaves(o);
            self.func.leaves(o);
        }
    }
    impl Node for Vec<Track> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 7, o)
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(slicable)]
    pub struct Slice3 {
        pub x1: i16,
        pub x10: u64,
        pub xi: u32,
        pub r#type: u32,
    }
    impl Node for Slice3 {
        fn leaves(self, o: &mut Vec<V>) {
            self.x1.leaves(o);
            self.x10.leaves(o);
            self.xi.leaves(o);
            self.r#type.leaves(o);
        }
    }
    impl Node for Vec<Slice3> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 4, o)
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "m_", slicable)]
    pub struct Channel {
        pub pos: i32,
        #[oxyroot(rename = "zzz18")]
        pub data: i64,
    }
    impl Node for Channel {
        fn leaves(self, o: &mut Vec<V>) {
            self.pos.leaves(o);
            self.data.leaves(o);
        }
    }
    impl Node for Vec<Channel> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 2, o)
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "m_")]
    pub struct Iter {
        pub r#type: Inner,
        #[oxyroot(slicable = "Track")]
        pub s: Vec<Track>,
        #[oxyroot(slicable = "Slice3")]
        pub value: Vec<Slice3>,
        pub nhits: i8,
        #[oxyroot(slicable = "Channel")]
        pub it: Vec<Channel>,
    }
    impl Node for Iter {
        fn leaves(self, o: &mut Vec<V>) {
            self.r#type.leaves(o);
            self.s.leaves(o);
            self.value.leaves(o);
            self.nhits.leaves(o);
            self.it.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "g_")]
    pub struct Rect {
        pub xi: Iter,
    }
    impl Node for Rect {
        fn leaves(self, o: &mut Vec<V>) {
            self.xi.leaves(o);
        }
    }
}

pub mod m26 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "g_", slicable)]
    pub struct Slice3 {
        pub energy: i64,
        pub a: i32,
    }
    impl Node for Slice3 {
        fn leaves(self, o: &mut Vec<V>) {
            self.energy.leaves(o);
            self.a.leaves(o);
        }
    }
    impl Node for Vec<Slice3> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 2, o)
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "pre.")]
    pub struct Sender {
        #[oxyroot(slicable = "Slice3")]
        pub func: Vec<Slice3>,
    }
    impl Node for Sender {
        fn leaves(self, o: &mut Vec<V>) {
            self.func.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "pre.")]
    pub struct Run {
        pub b: Sender,
    }
    impl Node for Run {
        fn leaves(self, o: &mut Vec<V>) {
            self.b.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "pre.")]
    pub struct Event {
        pub channel: Vec<String>,
    }
    impl Node for Event {
        fn leaves(self, o: &mut Vec<V>) {
            self.channel.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    pub struct Hit {
        #[oxyroot(rename = "zzz82")]
        pub q: [f32; 1],
        pub branch_name: f64,
    }
    impl Node for Hit {
        fn leaves(self, o: &mut Vec<V>) {
            self.q.leaves(o);
            self.branch_name.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "m_")]
    pub struct Cell2 {
        pub r#move: Event,
        pub flags: Hit,
    }
    impl Node for Cell2 {
        fn leaves(self, o: &mut Vec<V>) {
            self.r#move.leaves(o);
            self.flags.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "P")]
    pub struct Header {
        pub tree: Run,
        #[oxyroot(absolute_name = "abs_17")]
        pub x2: String,
        pub x: Cell2,
    }
    impl Node for Header {
        fn leaves(self, o: &mut Vec<V>) {
            self.tree.leaves(o);
            self.x2.leaves(o);
            self.x.leaves(o);
        }
    }
}

pub mod m27 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "m_")]
    pub struct Run {
        pub a: [i64; 32],
    }
    impl Node for Run {
        fn leaves(self, o: &mut Vec<V>) {
            self.a.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "m_", slicable)]
    pub struct Track {
        pub data: bool,
    }
    impl Node for Track {
        fn leaves(self, o: &mut Vec<V>) {
            self.data.leaves(o);
        }
    }
    impl Node for Vec<Track> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 1, o)
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(slicable)]
    pub struct Cell2 {
        pub v: i8,
        pub dir: u16,
    }
    impl Node for Cell2 {
        fn leaves(self, o: &mut Vec<V>) {
            self.v.leaves(o);
            self.dir.leaves(o);
        }
    }
    impl Node for Vec<Cell2> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 2, o)
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "g_")]
    pub struct Receiver {
        pub v: Run,
        #[oxyroot(rename = "zzz16", branch_prefix = "L")]
        pub b: f32,
        #[oxyroot(rename = "zzz4", slicable = "Track")]
        pub inner: Vec<Track>,
        #[oxyroot(rename = "rn_15", slicable = "Cell2")]
        pub x: Vec<Cell2>,
    }
    impl Node for Receiver {
        fn leaves(self, o: &mut Vec<V>) {
            self.v.leaves(o);
            self.b.leaves(o);
            self.inner.leaves(o);
            self.x.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "P", slicable)]
    pub struct Point {
        #[oxyroot(absolute_name = "Z20")]
        pub r#fn: u16,
        #[oxyroot(rename = "fX0", branch_prefix = "L")]
        pub sender: i16,
        pub pos: u8,
        pub v: u64,
        pub r#type: u64,
    }
    impl Node for Point {
        fn leaves(self, o: &mut Vec<V>) {
            self.r#fn.leaves(o);
            self.sender.leaves(o);
            self.pos.leaves(o);
            self.v.leaves(o);
            self.r#type.leaves(o);
        }
    }
    impl Node for Vec<Point> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 5, o)
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "pre.", slicable)]
    pub struct Inner {
        pub flags: u16,
        pub xi: u64,
        pub x: u16,
    }
    impl Node for Inner {
        fn leaves(self, o: &mut Vec<V>) {
            self.flags.leaves(o);
            self.xi.leaves(o);
            self.x.leaves(o);
        }
    }
    impl Node for Vec<Inner> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 3, o)
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "g_")]
    pub struct Slice3 {
        pub energy: [f64; 17],
        pub id: u8,
        pub inner: i64,
    }
    impl Node for Slice3 {
        fn leaves(self, o: &mut Vec<V>) {
            self.energy.leaves(o);
            self.id.leaves(o);
            self.inner.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    pub struct Hit {
        pub b: [u64; 7],
        pub long_field_name_to_be_stored_as_a_column: Vec<bool>,
    }
    impl Node for Hit {
        fn leaves(self, o: &mut Vec<V>) {
            self.b.leaves(o);
            self.long_field_name_to_be_stored_as_a_column.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "pre.", slicable)]
    pub struct Rect {
        pub next: f32,
        pub branch_name: f32,
    }
    impl Node for Rect {
        fn leaves(self, o: &mut Vec<V>) {
            self.next.leaves(o);
            self.branch_name.leaves(o);
        }
    }
    impl Node for Vec<Rect> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 2, o)
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "P", slicable)]
    pub struct Vertex {
        #[oxyroot(rename = "Other.60")]
        pub sender: i32,
        pub field_name: f32,
        #[oxyroot(rename = "Other.25")]
        pub r#move: bool,
        pub i: i32,
    }
    impl Node for Vertex {
        fn leaves(self, o: &mut Vec<V>) {
            self.sender.leaves(o);
            self.field_name.leaves(o);
            self.r#move.leaves(o);
            self.i.leaves(o);
        }
    }
    impl Node for Vec<Vertex> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 4, o)
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "P")]
    pub struct Event {
        #[oxyroot(absolute_name = "Top.level978")]
        pub x: Slice3,
        pub a: Hit,
        #[oxyroot(slicable = "Rect")]
        pub xi: Vec<Rect>,
        #[oxyroot(slicable = "Vertex")]
        pub channel: Vec<Vertex>,
        #[oxyroot(rename = "fX20", branch_prefix = "L")]
        pub next: [i64; 5],
    }
    impl Node for Event {
        fn leaves(self, o: &mut Vec<V>) {
            self.x.leaves(o);
            self.a.leaves(o);
            self.xi.leaves(o);
            self.channel.leaves(o);
            self.next.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "P")]
    pub struct Channel {
        #[oxyroot(rename = "Other.72")]
        pub x1: Inner,
        #[oxyroot(branch_prefix = "loc.")]
        pub x10: Event,
    }
    impl Node for Channel {
        fn leaves(self, o: &mut Vec<V>) {
            self.x1.leaves(o);
            self.x10.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "P", slicable)]
    pub struct Iter {
        pub struct_instance: i32,
    }
    impl Node for Iter {
        fn leaves(self, o: &mut Vec<V>) {
            self.struct_instance.leaves(o);
        }
    }
    impl Node for Vec<Iter> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 1, o)
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "m_")]
    pub struct Header {
        pub x2: u8,
    }
    impl Node for Header {
        fn leaves(self, o: &mut Vec<V>) {
            self.x2.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "g_")]
    pub struct Sender {
        #[oxyroot(rename = "fX23", branch_prefix = "L")]
        pub z: Channel,
        #[oxyroot(rename = "rn_88")]
        pub r#fn: Iter,
        pub ret: Header,
    }
    impl Node for Sender {
        fn leaves(self, o: &mut Vec<V>) {
            self.z.leaves(o);
            self.r#fn.leaves(o);
            self.ret.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    pub struct Deep {
        pub tree: Receiver,
        pub struct_instance: u8,
        #[oxyroot(branch_prefix = "L", slicable = "Point")]
        pub v: Vec<Point>,
        #[oxyroot(branch_prefix = "l_")]
        pub time: Sender,
        pub b: i32,
    }
    impl Node for Deep {
        fn leaves(self, o: &mut Vec<V>) {
            self.tree.leaves(o);
            self.struct_instance.leaves(o);
            self.v.leaves(o);
            self.time.leaves(o);
            self.b.leaves(o);
        }
    }
}

pub mod m28 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "P")]
    pub struct Deep {
        #[oxyroot(rename = "rn_88")]
        pub r#loop: Vec<i8>,
    }
    impl Node for Deep {
        fn leaves(self, o: &mut Vec<V>) {
            self.r#loop.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "m_", slicable)]
    pub struct Hit {
        pub _u: i16,
        pub it: i64,
    }
    impl Node for Hit {
        fn leaves(self, o: &mut Vec<V>) {
            self._u.leaves(o);
            self.it.leaves(o);
        }
    }
    impl Node for Vec<Hit> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 2, o)
        }
    }
    #[derive(ReadFromTree)]
    pub struct Sender {
        pub x: [u16; 31],
        #[oxyroot(slicable = "Hit")]
        pub next: Vec<Hit>,
    }
    impl Node for Sender {
        fn leaves(self, o: &mut Vec<V>) {
            self.x.leaves(o);
            self.next.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    pub struct Slice3 {
        pub inner: Sender,
    }
    impl Node for Slice3 {
        fn leaves(self, o: &mut Vec<V>) {
            self.inner.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    pub struct Event {
        #[oxyroot(rename = "Other.77", branch_prefix = "loc.")]
        pub x2: Deep,
        pub field_name: u8,
        #[oxyroot(rename = "zzz68", branch_prefix = "L")]
        pub nhits: Slice3,
    }
    impl Node for Event {
        fn leaves(self, o: &mut Vec<V>) {
            self.x2.leaves(o);
            self.field_name.leaves(o);
            self.nhits.leaves(o);
        }
    }
}

pub mod m29 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "pre.", slicable)]
    pub struct Point {
        #[oxyroot(rename = "fX68", branch_prefix = "L")]
        pub nhits: bool,
    }
    impl Node for Point {
        fn leaves(self, o: &mut Vec<V>) {
            self.nhits.leaves(o);
        }
    }
    impl Node for Vec<Point> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 1, o)
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(slicable)]
    pub struct Inner {
        pub current: u8,
        #[oxyroot(absolute_name = "Z74")]
        pub channel: u32,
        pub energy: i16,
    }
    impl Node for Inner {
        fn leaves(self, o: &mut Vec<V>) {
            self.current.leaves(o);
            self.channel.leaves(o);
            self.energy.leaves(o);
        }
    }
    impl Node for Vec<Inner> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 3, o)
        }
    }
    #[derive(ReadFromTree)]
    pub struct Receiver {
        pub field_name: i32,
    }
    impl Node for Receiver {
        fn leaves(self, o: &mut Vec<V>) {
            self.field_name.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    pub struct Iter {
        #[oxyroot(absolute_name = "Z92")]
        pub r#match: [i32; 7],
        #[oxyroot(rename = "zzz33")]
        pub p: u16,
        #[oxyroot(rename = "rn_20")]
        pub x10: u8,
    }
    impl Node for Iter {
        fn leaves(self, o: &mut Vec<V>) {
            self.r#match.leaves(o);
            self.p.leaves(o);
            self.x10.leaves(o);
        }
    }
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "P")]
    pub struct Channel {
        #[oxyroot(slicable = "Point")]
        pub value: Vec<Point>,
        #[oxyroot(slicable = "Inner")]
        pub z: Vec<Inner>,
        pub current: Vec<i8>,
        pub func: Receiver,
        pub _u: Iter,
    }
    impl Node for Channel {
        fn leaves(self, o: &mut Vec<V>) {
            self.value.leaves(o);
            self.z.leaves(o);
            self.current.leaves(o);
            self.func.leaves(o);
            self._u.leaves(o);
        }
    }
}

pub mod m30 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree)]
    #[oxyroot(branch_prefix = "m_", slicable)]
    pub struct Track {
        pub channel: i64,
        #[oxyroot(rename = "zzz91")]
        pub z: f64,
        pub ret: u8,
        pub v: i64,
    }
    impl Node for Track {
        fn leaves(self, o: &mut Vec<V>) {
            self.channel.leaves(o);
            self.z.leaves(o);
            self.ret.leaves(o);
            self.v.leaves(o);
        }
    }
    impl Node for Vec<Track> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 4, o)
        }
    }
    #[derive(ReadFromTree)]
    pub struct Run {
        #[oxyroot(branch_prefix = "L", slicable = "Track")]
        pub xi: Vec<Track>,
    }
    impl Node for Run {
        fn leaves(self, o: &mut Vec<V>) {
            self.xi.leaves(o);
        }
    }
}

pub mod m31 {
    use crate::p_derive::*;
    use crate::val::V;
    #[allow(unused_imports)]
    use oxyroot::{ReadFromTree, Slice, WriteToTree};
    #[allow(unused_imports)]
    use std::collections::{HashMap, HashSet};
    #[derive(ReadFromTree)]
    #[oxyroot(slicable)]
    pub struct Vertex {
        pub id: f64,
        pub inner: i8,
    }
    impl Node for Vertex {
        fn leaves(self, o: &mut Vec<V>) {
            self.id.leaves(o);
            self.inner.leaves(o);
        }
    }
    impl Node for Vec<Vertex> {
        fn leaves(self, o: &mut Vec<V>) {
            transpose(self.into_iter().map(|e| { let mut c = vec![]; e.leaves(&mut c); c }).collect(), 2, o)
        }
    }
    #[derive(ReadFromTree)]
    pub struct Point {
        #[oxyroot(slicable = "Vertex")]
        pub q: Vec<Vertex>,
    }
    impl Node for Point {
        fn leaves(self, o: &mut Vec<V>) {
            self.q.leaves(o);
        }
    }
}

#[rustfmt::skip]
pub fn shapes() -> Vec<Shape> {
    vec![
        Shape { id: "m0::Header", depth: 1, cols: vec![("c", vec_of(Ct::Pr(P::I64)), 0), ("next", vec_of(Ct::Pr(P::U64)), 0), ("type_name", Ct::Arr(P::I8, 7), 0), ("T1", vec_of(Ct::Pr(P::I8)), 0), ("func", Ct::Pr(P::U16), 0), ("tree", Ct::Arr(P::U8, 1), 0), ("xi", vec_of(Ct::Pr(P::U16)), 0)], decoys: vec![("cx", vec_of(Ct::Pr(P::I64))), ("x.c", vec_of(Ct::Pr(P::I64))), ("nextx", vec_of(Ct::Pr(P::U64))), ("x.next", vec_of(Ct::Pr(P::U64))), ("type_namex", Ct::Arr(P::I8, 7)), ("x.type_name", Ct::Arr(P::I8, 7)), ("T1x", vec_of(Ct::Pr(P::I8))), ("x.T1", vec_of(Ct::Pr(P::I8))), ("funcx", Ct::Pr(P::U16)), ("x.func", Ct::Pr(P::U16)), ("treex", Ct::Arr(P::U8, 1)), ("x.tree", Ct::Arr(P::U8, 1)), ("xix", vec_of(Ct::Pr(P::U16))), ("x.xi", vec_of(Ct::Pr(P::U16)))], read: read::<m0::Header>, read_at: read_at::<m0::Header>, write: Some(write::<m0::Header>) },
        Shape { id: "m1::Iter", depth: 1, cols: vec![("f59", Ct::S(Sk::Chars), 0), ("f58", vec_of(Ct::Pr(P::F64)), 0), ("f57", Ct::S(Sk::Chars), 0), ("f56", Ct::Pr(P::U8), 0), ("f55", Ct::Pr(P::F32), 0), ("f54", Ct::Pr(P::I32), 0), ("f53", Ct::Pr(P::I16), 0), ("f52", Ct::Pr(P::U32), 0), ("f51", vec_of(Ct::Pr(P::F64)), 0), ("f50", vec_of(Ct::Pr(P::U16)), 0), ("f49", Ct::Pr(P::I16), 0), ("f48", Ct::Pr(P::I32), 0), ("f47", Ct::Pr(P::I16), 0), ("f46", vec_of(Ct::Pr(P::U32)), 0), ("f45", Ct::Pr(P::U16), 0), ("f44", Ct::S(Sk::Chars), 0), ("f43", Ct::Arr(P::I32, 4), 0), ("f42", Ct::Pr(P::U64), 0), ("f41", Ct::Pr(P::I16), 0), ("f40", Ct::Pr(P::I64), 0), ("f39", Ct::S(Sk::Chars), 0), ("f38", Ct::Pr(P::U64), 0), ("f37", Ct::Arr(P::U16, 17), 0), ("f36", Ct::Pr(P::U8), 0), ("f35", Ct::Pr(P::F64), 0), ("f34", Ct::Arr(P::U16, 10), 0), ("f33", Ct::S(Sk::Chars), 0), ("f32", Ct::Arr(P::I16, 8), 0), ("f31", vec_of(Ct::Pr(P::I64)), 0), ("f30", Ct::S(Sk::Chars), 0), ("f29", Ct::S(Sk::Chars), 0), ("f28", vec_of(Ct::Pr(P::I16)), 0), ("f27", Ct::Pr(P::I32), 0), ("f26", Ct::Arr(P::U64, 16), 0), ("f25", Ct::Pr(P::I32), 0), ("f24", Ct::Arr(P::U16, 10), 0), ("f23", Ct::Pr(P::U32), 0), ("f22", Ct::S(Sk::Chars), 0), ("f21", Ct::Pr(P::I8), 0), ("f20", vec_of(Ct::Pr(P::U16)), 0), ("f19", Ct::Pr(P::F64), 0), ("f18", Ct::Pr(P::F64), 0), ("f17", Ct::Pr(P::I16), 0), ("f16", vec_of(Ct::Pr(P::F64)), 0), ("f15", Ct::Pr(P::Bool), 0), ("f14", Ct::S(Sk::Chars), 0), ("f13", Ct::Pr(P::U16), 0), ("f12", Ct::S(Sk::Chars), 0), ("f11", Ct::S(Sk::Chars), 0), ("f10", Ct::Arr(P::U32, 10), 0), ("f9", Ct::Pr(P::F64), 0), ("f8", vec_of(Ct::Pr(P::U8)), 0), ("f7", Ct::Pr(P::F32), 0), ("f6", Ct::S(Sk::Chars), 0), ("f5", Ct::Pr(P::I16), 0), ("f4", vec_of(Ct::Pr(P::I64)), 0), ("f3", Ct::Pr(P::I32), 0), ("f2", Ct::Arr(P::U32, 3), 0), ("f1", Ct::Arr(P::I32, 8), 0), ("f0", Ct::Pr(P::Bool), 0)], decoys: vec![("f59x", Ct::S(Sk::Chars)), ("x.f59", Ct::S(Sk::Chars)), ("f58x", vec_of(Ct::Pr(P::F64))), ("x.f58", vec_of(Ct::Pr(P::F64))), ("f57x", Ct::S(Sk::Chars)), ("x.f57", Ct::S(Sk::Chars)), ("f56x", Ct::Pr(P::U8)), ("x.f56", Ct::Pr(P::U8)), ("f55x", Ct::Pr(P::F32)), ("x.f55", Ct::Pr(P::F32)), ("f54x", Ct::Pr(P::I32)), ("x.f54", Ct::Pr(P::I32)), ("f53x", Ct::Pr(P::I16)), ("x.f53", Ct::Pr(P::I16)), ("f52x", Ct::Pr(P::U32)), ("x.f52", Ct::Pr(P::U32)), ("f51x", vec_of(Ct::Pr(P::F64))), ("x.f51", vec_of(Ct::Pr(P::F64))), ("f50x", vec_of(Ct::Pr(P::U16))), ("x.f50", vec_of(Ct::Pr(P::U16))), ("f49x", Ct::Pr(P::I16)), ("x.f49", Ct::Pr(P::I16)), ("f48x", Ct::Pr(P::I32)), ("x.f48", Ct::Pr(P::I32)), ("f47x", Ct::Pr(P::I16)), ("x.f47", Ct::Pr(P::I16)), ("f46x", vec_of(Ct::Pr(P::U32))), ("x.f46", vec_of(Ct::Pr(P::U32))), ("f45x", Ct::Pr(P::U16)), ("x.f45", Ct::Pr(P::U16)), ("f44x", Ct::S(Sk::Chars)), ("x.f44", Ct::S(Sk::Chars)), ("f43x", Ct::Arr(P::I32, 4)), ("x.f43", Ct::Arr(P::I32, 4)), ("f42x", Ct::Pr(P::U64)), ("x.f42", Ct::Pr(P::U64)), ("f41x", Ct::Pr(P::I16)), ("x.f41", Ct::Pr(P::I16)), ("f40x", Ct::Pr(P::I64)), ("x.f40", Ct::Pr(P::I64)), ("f39x", Ct::S(Sk::Chars)), ("x.f39", Ct::S(Sk::Chars)), ("f38x", Ct::Pr(P::U64)), ("x.f38", Ct::Pr(P::U64)), ("f37x", Ct::Arr(P::U16, 17)), ("x.f37", Ct::Arr(P::U16, 17)), ("f36x", Ct::Pr(P::U8)), ("x.f36", Ct::Pr(P::U8)), ("f35x", Ct::Pr(P::F64)), ("x.f35", Ct::Pr(P::F64)), ("f34x", Ct::Arr(P::U16, 10)), ("x.f34", Ct::Arr(P::U16, 10)), ("f33x", Ct::S(Sk::Chars)), ("x.f33", Ct::S(Sk::Chars)), ("f32x", Ct::Arr(P::I16, 8)), ("x.f32", Ct::Arr(P::I16, 8)), ("f31x", vec_of(Ct::Pr(P::I64))), ("x.f31", vec_of(Ct::Pr(P::I64))), ("f30x", Ct::S(Sk::Chars)), ("x.f30", Ct::S(Sk::Chars)), ("f29x", Ct::S(Sk::Chars)), ("x.f29", Ct::S(Sk::Chars)), ("f28x", vec_of(Ct::Pr(P::I16))), ("x.f28", vec_of(Ct::Pr(P::I16))), ("f27x", Ct::Pr(P::I32)), ("x.f27", Ct::Pr(P::I32)), ("f26x", Ct::Arr(P::U64, 16)), ("x.f26", Ct::Arr(P::U64, 16)), ("f25x", Ct::Pr(P::I32)), ("x.f25", Ct::Pr(P::I32)), ("f24x", Ct::Arr(P::U16, 10)), ("x.f24", Ct::Arr(P::U16, 10)), ("f23x", Ct::Pr(P::U32)), ("x.f23", Ct::Pr(P::U32)), ("f22x", Ct::S(Sk::Chars)), ("x.f22", Ct::S(Sk::Chars)), ("f21x", Ct::Pr(P::I8)), ("x.f21", Ct::Pr(P::I8)), ("f20x", vec_of(Ct::Pr(P::U16))), ("x.f20", vec_of(Ct::Pr(P::U16))), ("f19x", Ct::Pr(P::F64)), ("x.f19", Ct::Pr(P::F64)), ("f18x", Ct::Pr(P::F64)), ("x.f18", Ct::Pr(P::F64)), ("f17x", Ct::Pr(P::I16)), ("x.f17", Ct::Pr(P::I16)), ("f16x", vec_of(Ct::Pr(P::F64))), ("x.f16", vec_of(Ct::Pr(P::F64))), ("f15x", Ct::Pr(P::Bool)), ("x.f15", Ct::Pr(P::Bool)), ("f14x", Ct::S(Sk::Chars)), ("x.f14", Ct::S(Sk::Chars)), ("f13x", Ct::Pr(P::U16)), ("x.f13", Ct::Pr(P::U16)), ("f12x", Ct::S(Sk::Chars)), ("x.f12", Ct::S(Sk::Chars)), ("f11x", Ct::S(Sk::Chars)), ("x.f11", Ct::S(Sk::Chars)), ("f10x", Ct::Arr(P::U32, 10)), ("x.f10", Ct::Arr(P::U32, 10)), ("f9x", Ct::Pr(P::F64)), ("x.f9", Ct::Pr(P::F64)), ("f8x", vec_of(Ct::Pr(P::U8))), ("x.f8", vec_of(Ct::Pr(P::U8))), ("f7x", Ct::Pr(P::F32)), ("x.f7", Ct::Pr(P::F32)), ("f6x", Ct::S(Sk::Chars)), ("x.f6", Ct::S(Sk::Chars)), ("f5x", Ct::Pr(P::I16)), ("x.f5", Ct::Pr(P::I16)), ("f4x", vec_of(Ct::Pr(P::I64))), ("x.f4", vec_of(Ct::Pr(P::I64))), ("f3x", Ct::Pr(P::I32)), ("x.f3", Ct::Pr(P::I32)), ("f2x", Ct::Arr(P::U32, 3)), ("x.f2", Ct::Arr(P::U32, 3)), ("f1x", Ct::Arr(P::I32, 8)), ("x.f1", Ct::Arr(P::I32, 8)), ("f0x", Ct::Pr(P::Bool)), ("x.f0", Ct::Pr(P::Bool))], read: read::<m1::Iter>, read_at: read_at::<m1::Iter>, write: Some(write::<m1::Iter>) },
        Shape { id: "m2::Header", depth: 2, cols: vec![("receiver.func", vec_of(Ct::Pr(P::U64)), 1), ("receiver.pos", Ct::Pr(P::I32), 1), ("receiver.c", Ct::Pr(P::F64), 1), ("it.a", vec_of(Ct::Pr(P::I64)), 2), ("it.type", Ct::Pr(P::U64), 2), ("it.xi", Ct::Pr(P::F32), 2), ("it.z", Ct::S(Sk::Chars), 2), ("it.sender", Ct::Pr(P::I16), 2)], decoys: vec![("func", vec_of(Ct::Pr(P::U64))), ("receiver.funcx", vec_of(Ct::Pr(P::U64))), ("x.receiver.func", vec_of(Ct::Pr(P::U64))), ("pos", Ct::Pr(P::I32)), ("receiver.posx", Ct::Pr(P::I32)), ("x.receiver.pos", Ct::Pr(P::I32)), ("c", Ct::Pr(P::F64)), ("receiver.cx", Ct::Pr(P::F64)), ("x.receiver.c", Ct::Pr(P::F64)), ("a", vec_of(Ct::Pr(P::I64))), ("it.ax", vec_of(Ct::Pr(P::I64))), ("x.it.a", vec_of(Ct::Pr(P::I64))), ("type", Ct::Pr(P::U64)), ("it.typex", Ct::Pr(P::U64)), ("x.it.type", Ct::Pr(P::U64)), ("xi", Ct::Pr(P::F32)), ("it.xix", Ct::Pr(P::F32)), ("x.it.xi", Ct::Pr(P::F32)), ("z", Ct::S(Sk::Chars)), ("it.zx", Ct::S(Sk::Chars)), ("x.it.z", Ct::S(Sk::Chars)), ("sender", Ct::Pr(P::I16)), ("it.senderx", Ct::Pr(P::I16)), ("x.it.sender", Ct::Pr(P::I16))], read: read::<m2::Header>, read_at: read_at::<m2::Header>, write: Some(write::<m2::Header>) },
        Shape { id: "m3::Point", depth: 2, cols: vec![("i.value", vec_of(Ct::Pr(P::I32)), 1), ("y", vec_of(Ct::Pr(P::F64)), 0)], decoys: vec![("value", vec_of(Ct::Pr(P::I32))), ("i.valuex", vec_of(Ct::Pr(P::I32))), ("x.i.value", vec_of(Ct::Pr(P::I32))), ("yx", vec_of(Ct::Pr(P::F64))), ("x.y", vec_of(Ct::Pr(P::F64)))], read: read::<m3::Point>, read_at: read_at::<m3::Point>, write: Some(write::<m3::Point>) },
        Shape { id: "m4::Vertex", depth: 3, cols: vec![("tree", Ct::Pr(P::F32), 0), ("id.x2.pos", Ct::Pr(P::Bool), 2), ("id.x10", Ct::Pr(P::I8), 1), ("id.type", Ct::S(Sk::Chars), 1), ("it", Ct::S(Sk::Chars), 0)], decoys: vec![("treex", Ct::Pr(P::F32)), ("x.tree", Ct::Pr(P::F32)), ("pos", Ct::Pr(P::Bool)), ("id.x2.posx", Ct::Pr(P::Bool)), ("x.id.x2.pos", Ct::Pr(P::Bool)), ("x10", Ct::Pr(P::I8)), ("id.x10x", Ct::Pr(P::I8)), ("x.id.x10", Ct::Pr(P::I8)), ("type", Ct::S(Sk::Chars)), ("id.typex", Ct::S(Sk::Chars)), ("x.id.type", Ct::S(Sk::Chars)), ("itx", Ct::S(Sk::Chars)), ("x.it", Ct::S(Sk::Chars))], read: read::<m4::Vertex>, read_at: read_at::<m4::Vertex>, write: Some(write::<m4::Vertex>) },
        Shape { id: "m5::Slice3", depth: 3, cols: vec![("next.ret", Ct::Pr(P::U8), 1), ("next.next.branch_name", Ct::S(Sk::Chars), 2), ("next.next.x2", Ct::Arr(P::F32, 5), 2), ("next.channel", Ct::Pr(P::U8), 1), ("type_name.time.z", vec_of(Ct::Pr(P::I8)), 4), ("type_name.time.type_name", Ct::Arr(P::I32, 31), 4), ("type_name.time.x", vec_of(Ct::Pr(P::U16)), 4), ("type_name.time.x1", Ct::Arr(P::U64, 8), 4), ("type_name.time.i", vec_of(Ct::Pr(P::I16)), 4), ("type_name.time.branch_name", Ct::Pr(P::U8), 4), ("type_name.time.energy", Ct::Pr(P::I32), 4), ("type_name.v.type", vec_of(Ct::Pr(P::U64)), 5), ("type_name.v.x", Ct::Pr(P::Bool), 5), ("type_name.v.struct_instance", Ct::Pr(P::U16), 5), ("type_name.v.long_field_name_to_be_stored_as_a_column", Ct::Arr(P::F64, 32), 5), ("type_name.v.receiver", Ct::Pr(P::I16), 5), ("type_name.v.dir", Ct::Arr(P::I8, 10), 5), ("type_name.v.p", Ct::Pr(P::U8), 5), ("type_name.x1", Ct::Pr(P::U16), 3), ("type_name.move", Ct::Pr(P::U64), 3), ("type_name.func", Ct::Pr(P::F32), 3), ("long_field_name_to_be_stored_as_a_column", Ct::Arr(P::U32, 10), 0), ("pos.sender", Ct::S(Sk::Chars), 6), ("pos.inner", Ct::Pr(P::I8), 6), ("z", vec_of(Ct::Pr(P::I16)), 0), ("loop", Ct::Pr(P::Bool), 0), ("x1.nhits.sender", Ct::Arr(P::U64, 10), 8), ("x1.i", vec_of(Ct::Pr(P::I64)), 7), ("x1.x.dir", Ct::Pr(P::I32), 9), ("x1.loop", Ct::Pr(P::U16), 7)], decoys: vec![("ret", Ct::Pr(P::U8)), ("next.retx", Ct::Pr(P::U8)), ("x.next.ret", Ct::Pr(P::U8)), ("branch_name", Ct::S(Sk::Chars)), ("next.next.branch_namex", Ct::S(Sk::Chars)), ("x.next.next.branch_name", Ct::S(Sk::Chars)), ("x2", Ct::Arr(P::F32, 5)), ("next.next.x2x", Ct::Arr(P::F32, 5)), ("x.next.next.x2", Ct::Arr(P::F32, 5)), ("channel", Ct::Pr(P::U8)), ("next.channelx", Ct::Pr(P::U8)), ("x.next.channel", Ct::Pr(P::U8)), ("type_name.time.zx", vec_of(Ct::Pr(P::I8))), ("x.type_name.time.z", vec_of(Ct::Pr(P::I8))), ("type_name", Ct::Arr(P::I32, 31)), ("type_name.time.type_namex", Ct::Arr(P::I32, 31)), ("x.type_name.time.type_name", Ct::Arr(P::I32, 31)), ("x", vec_of(Ct::Pr(P::U16))), ("type_name.time.xx", vec_of(Ct::Pr(P::U16))), ("x.type_name.time.x", vec_of(Ct::Pr(P::U16))), ("x1", Ct::Arr(P::U64, 8)), ("type_name.time.x1x", Ct::Arr(P::U64, 8)), ("x.type_name.time.x1", Ct::Arr(P::U64, 8)), ("i", vec_of(Ct::Pr(P::I16))), ("type_name.time.ix", vec_of(Ct::Pr(P::I16))), ("x.type_name.time.i", vec_of(Ct::Pr(P::I16))), ("type_name.time.branch_namex", Ct::Pr(P::U8)), ("x.type_name.time.branch_name", Ct::Pr(P::U8)), ("energy", Ct::Pr(P::I32)), ("type_name.time.energyx", Ct::Pr(P::I32)), ("x.type_name.time.energy", Ct::Pr(P::I32)), ("type", vec_of(Ct::Pr(P::U64))), ("type_name.v.typex", vec_of(Ct::Pr(P::U64))), ("x.type_name.v.type", vec_of(Ct::Pr(P::U64))), ("type_name.v.xx", Ct::Pr(P::Bool)), ("x.type_name.v.x", Ct::Pr(P::Bool)), ("struct_instance", Ct::Pr(P::U16)), ("type_name.v.struct_instancex", Ct::Pr(P::U16)), ("x.type_name.v.struct_instance", Ct::Pr(P::U16)), ("type_name.v.long_field_name_to_be_stored_as_a_columnx", Ct::Arr(P::F64, 32)), ("x.type_name.v.long_field_name_to_be_stored_as_a_column", Ct::Arr(P::F64, 32)), ("receiver", Ct::Pr(P::I16)), ("type_name.v.receiverx", Ct::Pr(P::I16)), ("x.type_name.v.receiver", Ct::Pr(P::I16)), ("dir", Ct::Arr(P::I8, 10)), ("type_name.v.dirx", Ct::Arr(P::I8, 10)), ("x.type_name.v.dir", Ct::Arr(P::I8, 10)), ("p", Ct::Pr(P::U8)), ("type_name.v.px", Ct::Pr(P::U8)), ("x.type_name.v.p", Ct::Pr(P::U8)), ("type_name.x1x", Ct::Pr(P::U16)), ("x.type_name.x1", Ct::Pr(P::U16)), ("move", Ct::Pr(P::U64)), ("type_name.movex", Ct::Pr(P::U64)), ("x.type_name.move", Ct::Pr(P::U64)), ("func", Ct::Pr(P::F32)), ("type_name.funcx", Ct::Pr(P::F32)), ("x.type_name.func", Ct::Pr(P::F32)), ("long_field_name_to_be_stored_as_a_columnx", Ct::Arr(P::U32, 10)), ("x.long_field_name_to_be_stored_as_a_column", Ct::Arr(P::U32, 10)), ("sender", Ct::S(Sk::Chars)), ("pos.senderx", Ct::S(Sk::Chars)), ("x.pos.sender", Ct::S(Sk::Chars)), ("inner", Ct::Pr(P::I8)), ("pos.innerx", Ct::Pr(P::I8)), ("x.pos.inner", Ct::Pr(P::I8)), ("zx", vec_of(Ct::Pr(P::I16))), ("x.z", vec_of(Ct::Pr(P::I16))), ("loopx", Ct::Pr(P::Bool)), ("x.loop", Ct::Pr(P::Bool)), ("x1.nhits.senderx", Ct::Arr(P::U64, 10)), ("x.x1.nhits.sender", Ct::Arr(P::U64, 10)), ("x1.ix", vec_of(Ct::Pr(P::I64))), ("x.x1.i", vec_of(Ct::Pr(P::I64))), ("x1.x.dirx", Ct::Pr(P::I32)), ("x.x1.x.dir", Ct::Pr(P::I32)), ("x1.loopx", Ct::Pr(P::U16)), ("x.x1.loop", Ct::Pr(P::U16))], read: read::<m5::Slice3>, read_at: read_at::<m5::Slice3>, write: Some(write::<m5::Slice3>) },
        Shape { id: "m6::Run", depth: 4, cols: vec![("c._u", vec_of(Ct::Pr(P::I64)), 1), ("c.nhits.pos.flags", Ct::Arr(P::I16, 16), 3), ("c.tree.a.long_field_name_to_be_stored_as_a_column", Ct::Arr(P::I64, 7), 5), ("c.tree.a.move", vec_of(Ct::Pr(P::U16)), 5), ("c.tree.a.y", Ct::S(Sk::Chars), 5), ("c.tree.a.it", Ct::S(Sk::Chars), 5), ("c.tree.a.tree", Ct::S(Sk::Chars), 5), ("c.tree.match", Ct::S(Sk::Chars), 4)], decoys: vec![("_u", vec_of(Ct::Pr(P::I64))), ("c._ux", vec_of(Ct::Pr(P::I64))), ("x.c._u", vec_of(Ct::Pr(P::I64))), ("flags", Ct::Arr(P::I16, 16)), ("c.nhits.pos.flagsx", Ct::Arr(P::I16, 16)), ("x.c.nhits.pos.flags", Ct::Arr(P::I16, 16)), ("long_field_name_to_be_stored_as_a_column", Ct::Arr(P::I64, 7)), ("c.tree.a.long_field_name_to_be_stored_as_a_columnx", Ct::Arr(P::I64, 7)), ("x.c.tree.a.long_field_name_to_be_stored_as_a_column", Ct::Arr(P::I64, 7)), ("move", vec_of(Ct::Pr(P::U16))), ("c.tree.a.movex", vec_of(Ct::Pr(P::U16))), ("x.c.tree.a.move", vec_of(Ct::Pr(P::U16))), ("y", Ct::S(Sk::Chars)), ("c.tree.a.yx", Ct::S(Sk::Chars)), ("x.c.tree.a.y", Ct::S(Sk::Chars)), ("it", Ct::S(Sk::Chars)), ("c.tree.a.itx", Ct::S(Sk::Chars)), ("x.c.tree.a.it", Ct::S(Sk::Chars)), ("tree", Ct::S(Sk::Chars)), ("c.tree.a.treex", Ct::S(Sk::Chars)), ("x.c.tree.a.tree", Ct::S(Sk::Chars)), ("match", Ct::S(Sk::Chars)), ("c.tree.matchx", Ct::S(Sk::Chars)), ("x.c.tree.match", Ct::S(Sk::Chars))], read: read::<m6::Run>, read_at: read_at::<m6::Run>, write: Some(write::<m6::Run>) },
        Shape { id: "m7::Deep", depth: 4, cols: vec![("type_name", vec_of(Ct::Pr(P::F64)), 0), ("flags", Ct::S(Sk::Chars), 0), ("type.branch_name.c.x1", Ct::Arr(P::U8, 16), 3), ("type.branch_name.c.type", Ct::S(Sk::Chars), 3), ("type.branch_name.c.type_name", Ct::Pr(P::I8), 3), ("type.branch_name.c.xi", Ct::Arr(P::I16, 10), 3), ("type.branch_name.c.it", Ct::Arr(P::Bool, 3), 3), ("type.branch_name.sender", Ct::S(Sk::Chars), 2), ("type.branch_name.ret.energy", Ct::Pr(P::U64), 4), ("type.branch_name.ret.x1", Ct::Pr(P::U8), 4), ("type.branch_name.ret.q", Ct::S(Sk::Chars), 4), ("type.branch_name.ret.xi", Ct::S(Sk::Chars), 4), ("type.tree.branch_name", Ct::Pr(P::F64), 5), ("type._u", Ct::Pr(P::I8), 1), ("type.type.it.T1", Ct::Pr(P::I8), 7), ("type.type.it.struct_instance", Ct::Pr(P::Bool), 7), ("type.type.s", Ct::Pr(P::U64), 6)], decoys: vec![("type_namex", vec_of(Ct::Pr(P::F64))), ("x.type_name", vec_of(Ct::Pr(P::F64))), ("flagsx", Ct::S(Sk::Chars)), ("x.flags", Ct::S(Sk::Chars)), ("x1", Ct::Arr(P::U8, 16)), ("type.branch_name.c.x1x", Ct::Arr(P::U8, 16)), ("x.type.branch_name.c.x1", Ct::Arr(P::U8, 16)), ("type", Ct::S(Sk::Chars)), ("type.branch_name.c.typex", Ct::S(Sk::Chars)), ("x.type.branch_name.c.type", Ct::S(Sk::Chars)), ("type.branch_name.c.type_namex", Ct::Pr(P::I8)), ("x.type.branch_name.c.type_name", Ct::Pr(P::I8)), ("xi", Ct::Arr(P::I16, 10)), ("type.branch_name.c.xix", Ct::Arr(P::I16, 10)), ("x.type.branch_name.c.xi", Ct::Arr(P::I16, 10)), ("it", Ct::Arr(P::Bool, 3)), ("type.branch_name.c.itx", Ct::Arr(P::Bool, 3)), ("x.type.branch_name.c.it", Ct::Arr(P::Bool, 3)), ("sender", Ct::S(Sk::Chars)), ("type.branch_name.senderx", Ct::S(Sk::Chars)), ("x.type.branch_name.sender", Ct::S(Sk::Chars)), ("energy", Ct::Pr(P::U64)), ("type.branch_name.ret.energyx", Ct::Pr(P::U64)), ("x.type.branch_name.ret.energy", Ct::Pr(P::U64)), ("type.branch_name.ret.x1x", Ct::Pr(P::U8)), ("x.type.branch_name.ret.x1", Ct::Pr(P::U8)), ("q", Ct::S(Sk::Chars)), ("type.branch_name.ret.qx", Ct::S(Sk::Chars)), ("x.type.branch_name.ret.q", Ct::S(Sk::Chars)), ("type.branch_name.ret.xix", Ct::S(Sk::Chars)), ("x.type.branch_name.ret.xi", Ct::S(Sk::Chars)), ("branch_name", Ct::Pr(P::F64)), ("type.tree.branch_namex", Ct::Pr(P::F64)), ("x.type.tree.branch_name", Ct::Pr(P::F64)), ("_u", Ct::Pr(P::I8)), ("type._ux", Ct::Pr(P::I8)), ("x.type._u", Ct::Pr(P::I8)), ("T1", Ct::Pr(P::I8)), ("type.type.it.T1x", Ct::Pr(P::I8)), ("x.type.type.it.T1", Ct::Pr(P::I8)), ("struct_instance", Ct::Pr(P::Bool)), ("type.type.it.struct_instancex", Ct::Pr(P::Bool)), ("x.type.type.it.struct_instance", Ct::Pr(P::Bool)), ("s", Ct::Pr(P::U64)), ("type.type.sx", Ct::Pr(P::U64)), ("x.type.type.s", Ct::Pr(P::U64))], read: read::<m7::Deep>, read_at: read_at::<m7::Deep>, write: Some(write::<m7::Deep>) },
        Shape { id: "m8::Receiver", depth: 5, cols: vec![("field_name.z.pos", vec_of(Ct::Pr(P::U32)), 2), ("data", Ct::S(Sk::Chars), 0), ("id.type_name", Ct::S(Sk::Chars), 3), ("tree.p", Ct::Arr(P::I32, 31), 4), ("tree.loop", Ct::Pr(P::I8), 4), ("current", Ct::Pr(P::F64), 0), ("i.branch_name.c.struct_instance.dir", Ct::S(Sk::Chars), 8), ("i.branch_name.c.struct_instance.func", Ct::Pr(P::U8), 8), ("i.branch_name.c.id", Ct::Arr(P::I64, 10), 7), ("i.branch_name.c.flags.i", Ct::Pr(P::U32), 9), ("i.branch_name.c.field_name", Ct::Pr(P::F64), 7), ("i.branch_name.c.energy.tree", vec_of(Ct::Pr(P::U16)), 10), ("i.branch_name.c.it.tree", Ct::Arr(P::U64, 16), 11), ("i.branch_name.c.it.x10", Ct::Pr(P::U8), 11), ("i.branch_name.c.data", Ct::Arr(P::U8, 31), 7), ("i.branch_name.branch_name.y", Ct::Arr(P::F64, 32), 12), ("i.branch_name.branch_name.dir._u", Ct::Pr(P::F32), 13), ("i.branch_name.branch_name.move", vec_of(Ct::Pr(P::I16)), 12), ("i.branch_name.branch_name.time", Ct::Arr(P::F32, 10), 12), ("i.branch_name.branch_name.next", Ct::S(Sk::Chars), 12), ("i.branch_name.branch_name.c.b", Ct::S(Sk::Chars), 14), ("i.branch_name.branch_name.c.long_field_name_to_be_stored_as_a_column", Ct::Pr(P::U16), 14), ("i.branch_name.branch_name.branch_name", vec_of(Ct::Pr(P::I64)), 12), ("i.branch_name.nhits", Ct::Pr(P::Bool), 6), ("i.branch_name.y.xi", Ct::S(Sk::Chars), 15), ("i.branch_name.y.branch_name", Ct::S(Sk::Chars), 15), ("i.branch_name.current", vec_of(Ct::Pr(P::U16)), 6), ("i.id", Ct::Pr(P::U64), 5), ("v", Ct::S(Sk::Chars), 0)], decoys: vec![("pos", vec_of(Ct::Pr(P::U32))), ("field_name.z.posx", vec_of(Ct::Pr(P::U32))), ("x.field_name.z.pos", vec_of(Ct::Pr(P::U32))), ("datax", Ct::S(Sk::Chars)), ("x.data", Ct::S(Sk::Chars)), ("type_name", Ct::S(Sk::Chars)), ("id.type_namex", Ct::S(Sk::Chars)), ("x.id.type_name", Ct::S(Sk::Chars)), ("p", Ct::Arr(P::I32, 31)), ("tree.px", Ct::Arr(P::I32, 31)), ("x.tree.p", Ct::Arr(P::I32, 31)), ("loop", Ct::Pr(P::I8)), ("tree.loopx", Ct::Pr(P::I8)), ("x.tree.loop", Ct::Pr(P::I8)), ("currentx", Ct::Pr(P::F64)), ("x.current", Ct::Pr(P::F64)), ("dir", Ct::S(Sk::Chars)), ("i.branch_name.c.struct_instance.dirx", Ct::S(Sk::Chars)), ("x.i.branch_name.c.struct_instance.dir", Ct::S(Sk::Chars)), ("func", Ct::Pr(P::U8)), ("i.branch_name.c.struct_instance.funcx", Ct::Pr(P::U8)), ("x.i.branch_name.c.struct_instance.func", Ct::Pr(P::U8)), ("id", Ct::Arr(P::I64, 10)), ("i.branch_name.c.idx", Ct::Arr(P::I64, 10)), ("x.i.branch_name.c.id", Ct::Arr(P::I64, 10)), ("i", Ct::Pr(P::U32)), ("i.branch_name.c.flags.ix", Ct::Pr(P::U32)), ("x.i.branch_name.c.flags.i", Ct::Pr(P::U32)), ("field_name", Ct::Pr(P::F64)), ("i.branch_name.c.field_namex", Ct::Pr(P::F64)), ("x.i.branch_name.c.field_name", Ct::Pr(P::F64)), ("tree", vec_of(Ct::Pr(P::U16))), ("i.branch_name.c.energy.treex", vec_of(Ct::Pr(P::U16))), ("x.i.branch_name.c.energy.tree", vec_of(Ct::Pr(P::U16))), ("i.branch_name.c.it.treex", Ct::Arr(P::U64, 16)), ("x.i.branch_name.c.it.tree", Ct::Arr(P::U64, 16)), ("x10", Ct::Pr(P::U8)), ("i.branch_name.c.it.x10x", Ct::Pr(P::U8)), ("x.i.branch_name.c.it.x10", Ct::Pr(P::U8)), ("i.branch_name.c.datax", Ct::Arr(P::U8, 31)), ("x.i.branch_name.c.data", Ct::Arr(P::U8, 31)), ("y", Ct::Arr(P::F64, 32)), ("i.branch_name.branch_name.yx", Ct::Arr(P::F64, 32)), ("x.i.branch_name.branch_name.y", Ct::Arr(P::F64, 32)), ("_u", Ct::Pr(P::F32)), ("i.branch_name.branch_name.dir._ux", Ct::Pr(P::F32)), ("x.i.branch_name.branch_name.dir._u", Ct::Pr(P::F32)), ("move", vec_of(Ct::Pr(P::I16))), ("i.branch_name.branch_name.movex", vec_of(Ct::Pr(P::I16))), ("x.i.branch_name.branch_name.move", vec_of(Ct::Pr(P::I16))), ("time", Ct::Arr(P::F32, 10)), ("i.branch_name.branch_name.timex", Ct::Arr(P::F32, 10)), ("x.i.branch_name.branch_name.time", Ct::Arr(P::F32, 10)), ("next", Ct::S(Sk::Chars)), ("i.branch_name.branch_name.nextx", Ct::S(Sk::Chars)), ("x.i.branch_name.branch_name.next", Ct::S(Sk::Chars)), ("b", Ct::S(Sk::Chars)), ("i.branch_name.branch_name.c.bx", Ct::S(Sk::Chars)), ("x.i.branch_name.branch_name.c.b", Ct::S(Sk::Chars)), ("long_field_name_to_be_stored_as_a_column", Ct::Pr(P::U16)), ("i.branch_name.branch_name.c.long_field_name_to_be_stored_as_a_columnx", Ct::Pr(P::U16)), ("x.i.branch_name.branch_name.c.long_field_name_to_be_stored_as_a_column", Ct::Pr(P::U16)), ("branch_name", vec_of(Ct::Pr(P::I64))), ("i.branch_name.branch_name.branch_namex", vec_of(Ct::Pr(P::I64))), ("x.i.branch_name.branch_name.branch_name", vec_of(Ct::Pr(P::I64))), ("nhits", Ct::Pr(P::Bool)), ("i.branch_name.nhitsx", Ct::Pr(P::Bool)), ("x.i.branch_name.nhits", Ct::Pr(P::Bool)), ("xi", Ct::S(Sk::Chars)), ("i.branch_name.y.xix", Ct::S(Sk::Chars)), ("x.i.branch_name.y.xi", Ct::S(Sk::Chars)), ("i.branch_name.y.branch_namex", Ct::S(Sk::Chars)), ("x.i.branch_name.y.branch_name", Ct::S(Sk::Chars)), ("i.branch_name.currentx", vec_of(Ct::Pr(P::U16))), ("x.i.branch_name.current", vec_of(Ct::Pr(P::U16))), ("i.idx", Ct::Pr(P::U64)), ("x.i.id", Ct::Pr(P::U64)), ("vx", Ct::S(Sk::Chars)), ("x.v", Ct::S(Sk::Chars))], read: read::<m8::Receiver>, read_at: read_at::<m8::Receiver>, write: Some(write::<m8::Receiver>) },
        Shape { id: "m9::Run", depth: 6, cols: vec![("time.it.v.x2.x1", Ct::Arr(P::Bool, 5), 4), ("time.it.v.x2.move", Ct::Pr(P::U64), 4), ("time.it.v.x2.func", Ct::Arr(P::I8, 2), 4), ("time.it.current", Ct::Arr(P::I8, 32), 2), ("time.it.func", vec_of(Ct::Pr(P::F32)), 2), ("time.next.value.T1.inner.y", Ct::Pr(P::I16), 8), ("time.func.z.tree.inner", Ct::Pr(P::U8), 11), ("time.func.z.a", Ct::Arr(P::Bool, 3), 10), ("time.func.z.it", vec_of(Ct::Pr(P::I16)), 10), ("time.func.z.s.match", Ct::Arr(P::I16, 8), 12), ("time.func.z.s.v.field_name", vec_of(Ct::Pr(P::I64)), 13), ("time.func.z.s.v.T1", Ct::Pr(P::Bool), 13), ("time.func.z.s._u.q", Ct::Arr(P::I32, 2), 14), ("time.func.z.s._u.value", vec_of(Ct::Pr(P::I32)), 14), ("time.func.z.s._u.tree", Ct::Pr(P::U16), 14), ("time.func.z.s._u.a", Ct::Pr(P::U32), 14), ("time.func.z.s._u.field_name", vec_of(Ct::Pr(P::I16)), 14), ("time.func.z.s._u.xi", Ct::Pr(P::I16), 14), ("time.func.z.s._u.flags", Ct::Pr(P::U16), 14), ("time.func.z.s.long_field_name_to_be_stored_as_a_column.y", Ct::S(Sk::Chars), 15), ("time.func.z.s.nhits", Ct::Pr(P::F32), 12), ("time.func.z.s.type", Ct::Arr(P::F32, 17), 12), ("time.func.z.s.branch_name", vec_of(Ct::Pr(P::F64)), 12), ("time.func.z.q", Ct::S(Sk::Chars), 10), ("time.func.x", Ct::Pr(P::U16), 9), ("time.i", Ct::Arr(P::I64, 3), 1)], decoys: vec![("x1", Ct::Arr(P::Bool, 5)), ("time.it.v.x2.x1x", Ct::Arr(P::Bool, 5)), ("x.time.it.v.x2.x1", Ct::Arr(P::Bool, 5)), ("move", Ct::Pr(P::U64)), ("time.it.v.x2.movex", Ct::Pr(P::U64)), ("x.time.it.v.x2.move", Ct::Pr(P::U64)), ("func", Ct::Arr(P::I8, 2)), ("time.it.v.x2.funcx", Ct::Arr(P::I8, 2)), ("x.time.it.v.x2.func", Ct::Arr(P::I8, 2)), ("current", Ct::Arr(P::I8, 32)), ("time.it.currentx", Ct::Arr(P::I8, 32)), ("x.time.it.current", Ct::Arr(P::I8, 32)), ("time.it.funcx", vec_of(Ct::Pr(P::F32))), ("x.time.it.func", vec_of(Ct::Pr(P::F32))), ("y", Ct::Pr(P::I16)), ("time.next.value.T1.inner.yx", Ct::Pr(P::I16)), ("x.time.next.value.T1.inner.y", Ct::Pr(P::I16)), ("inner", Ct::Pr(P::U8)), ("time.func.z.tree.innerx", Ct::Pr(P::U8)), ("x.time.func.z.tree.inner", Ct::Pr(P::U8)), ("a", Ct::Arr(P::Bool, 3)), ("time.func.z.ax", Ct::Arr(P::Bool, 3)), ("x.time.func.z.a", Ct::Arr(P::Bool, 3)), ("it", vec_of(Ct::Pr(P::I16))), ("time.func.z.itx", vec_of(Ct::Pr(P::I16))), ("x.time.func.z.it", vec_of(Ct::Pr(P::I16))), ("match", Ct::Arr(P::I16, 8)), ("time.func.z.s.matchx", Ct::Arr(P::I16, 8)), ("x.time.func.z.s.match", Ct::Arr(P::I16, 8)), ("field_name", vec_of(Ct::Pr(P::I64))), ("time.func.z.s.v.field_namex", vec_of(Ct::Pr(P::I64))), ("x.time.func.z.s.v.field_name", vec_of(Ct::Pr(P::I64))), ("T1", Ct::Pr(P::Bool)), ("time.func.z.s.v.T1x", Ct::Pr(P::Bool)), ("x.time.func.z.s.v.T1", Ct::Pr(P::Bool)), ("q", Ct::Arr(P::I32, 2)), ("time.func.z.s._u.qx", Ct::Arr(P::I32, 2)), ("x.time.func.z.s._u.q", Ct::Arr(P::I32, 2)), ("value", vec_of(Ct::Pr(P::I32))), ("time.func.z.s._u.valuex", vec_of(Ct::Pr(P::I32))), ("x.time.func.z.s._u.value", vec_of(Ct::Pr(P::I32))), ("tree", Ct::Pr(P::U16)), ("time.func.z.s._u.treex", Ct::Pr(P::U16)), ("x.time.func.z.s._u.tree", Ct::Pr(P::U16)), ("time.func.z.s._u.ax", Ct::Pr(P::U32)), ("x.time.func.z.s._u.a", Ct::Pr(P::U32)), ("time.func.z.s._u.field_namex", vec_of(Ct::Pr(P::I16))), ("x.time.func.z.s._u.field_name", vec_of(Ct::Pr(P::I16))), ("xi", Ct::Pr(P::I16)), ("time.func.z.s._u.xix", Ct::Pr(P::I16)), ("x.time.func.z.s._u.xi", Ct::Pr(P::I16)), ("flags", Ct::Pr(P::U16)), ("time.func.z.s._u.flagsx", Ct::Pr(P::U16)), ("x.time.func.z.s._u.flags", Ct::Pr(P::U16)), ("time.func.z.s.long_field_name_to_be_stored_as_a_column.yx", Ct::S(Sk::Chars)), ("x.time.func.z.s.long_field_name_to_be_stored_as_a_column.y", Ct::S(Sk::Chars)), ("nhits", Ct::Pr(P::F32)), ("time.func.z.s.nhitsx", Ct::Pr(P::F32)), ("x.time.func.z.s.nhits", Ct::Pr(P::F32)), ("type", Ct::Arr(P::F32, 17)), ("time.func.z.s.typex", Ct::Arr(P::F32, 17)), ("x.time.func.z.s.type", Ct::Arr(P::F32, 17)), ("branch_name", vec_of(Ct::Pr(P::F64))), ("time.func.z.s.branch_namex", vec_of(Ct::Pr(P::F64))), ("x.time.func.z.s.branch_name", vec_of(Ct::Pr(P::F64))), ("time.func.z.qx", Ct::S(Sk::Chars)), ("x.time.func.z.q", Ct::S(Sk::Chars)), ("x", Ct::Pr(P::U16)), ("time.func.xx", Ct::Pr(P::U16)), ("x.time.func.x", Ct::Pr(P::U16)), ("i", Ct::Arr(P::I64, 3)), ("time.ix", Ct::Arr(P::I64, 3)), ("x.time.i", Ct::Arr(P::I64, 3))], read: read::<m9::Run>, read_at: read_at::<m9::Run>, write: Some(write::<m9::Run>) },
        Shape { id: "m10::Hit", depth: 7, cols: vec![("c", Ct::S(Sk::Chars), 0), ("tree.c.q.data.struct_instance", Ct::Pr(P::U8), 4), ("tree.c.q.data.value", Ct::Pr(P::I64), 4), ("tree.c.q.data.c", Ct::Pr(P::U8), 4), ("tree.c.q.data.long_field_name_to_be_stored_as_a_column", Ct::Arr(P::F32, 4), 4), ("tree.c.q.c.dir", Ct::Arr(P::I64, 1), 5), ("tree.c.q.c.tree", Ct::Arr(P::U32, 10), 5), ("tree.c.q.ret", vec_of(Ct::Pr(P::I64)), 3), ("tree.c.field_name.sender.flags.inner.struct_instance", Ct::Pr(P::U64), 9), ("tree.c.field_name.sender.flags.v", Ct::Pr(P::U16), 8), ("tree.c.field_name.sender.x.energy", Ct::Pr(P::F32), 10), ("tree.c.field_name.sender.current.match", Ct::Pr(P::Bool), 11), ("tree.c.field_name.sender.ret.current.move", vec_of(Ct::Pr(P::U64)), 13), ("tree.c.field_name.sender.ret.current.pos", Ct::S(Sk::Chars), 13), ("tree.c.field_name.sender.ret.current.i", Ct::S(Sk::Chars), 13), ("tree.c.field_name.sender.ret.p", Ct::S(Sk::Chars), 12), ("tree.c.field_name.y", Ct::Arr(P::F32, 10), 6), ("tree.c.field_name.move", Ct::Pr(P::I16), 6), ("tree.c.type_name.time.data", vec_of(Ct::Pr(P::U32)), 15), ("tree.c.type_name.time.y", Ct::Pr(P::U32), 15), ("tree.c.type_name.tree", Ct::Arr(P::U8, 10), 14), ("tree.c.type_name.receiver", Ct::Pr(P::Bool), 14), ("tree.c.type_name.v", Ct::Pr(P::F32), 14), ("tree.c.a", Ct::Pr(P::I16), 2), ("tree.c.x10", Ct::S(Sk::Chars), 2), ("tree.match", Ct::Pr(P::I32), 1), ("tree.energy", Ct::Pr(P::F32), 1), ("tree.a", Ct::S(Sk::Chars), 1), ("tree.func", Ct::Pr(P::U32), 1)], decoys: vec![("cx", Ct::S(Sk::Chars)), ("x.c", Ct::S(Sk::Chars)), ("struct_instance", Ct::Pr(P::U8)), ("tree.c.q.data.struct_instancex", Ct::Pr(P::U8)), ("x.tree.c.q.data.struct_instance", Ct::Pr(P::U8)), ("value", Ct::Pr(P::I64)), ("tree.c.q.data.valuex", Ct::Pr(P::I64)), ("x.tree.c.q.data.value", Ct::Pr(P::I64)), ("tree.c.q.data.cx", Ct::Pr(P::U8)), ("x.tree.c.q.data.c", Ct::Pr(P::U8)), ("long_field_name_to_be_stored_as_a_column", Ct::Arr(P::F32, 4)), ("tree.c.q.data.long_field_name_to_be_stored_as_a_columnx", Ct::Arr(P::F32, 4)), ("x.tree.c.q.data.long_field_name_to_be_stored_as_a_column", Ct::Arr(P::F32, 4)), ("dir", Ct::Arr(P::I64, 1)), ("tree.c.q.c.dirx", Ct::Arr(P::I64, 1)), ("x.tree.c.q.c.dir", Ct::Arr(P::I64, 1)), ("tree", Ct::Arr(P::U32, 10)), ("tree.c.q.c.treex", Ct::Arr(P::U32, 10)), ("x.tree.c.q.c.tree", Ct::Arr(P::U32, 10)), ("ret", vec_of(Ct::Pr(P::I64))), ("tree.c.q.retx", vec_of(Ct::Pr(P::I64))), ("x.tree.c.q.ret", vec_of(Ct::Pr(P::I64))), ("tree.c.field_name.sender.flags.inner.struct_instancex", Ct::Pr(P::U64)), ("x.tree.c.field_name.sender.flags.inner.struct_instance", Ct::Pr(P::U64)), ("v", Ct::Pr(P::U16)), ("tree.c.field_name.sender.flags.vx", Ct::Pr(P::U16)), ("x.tree.c.field_name.sender.flags.v", Ct::Pr(P::U16)), ("energy", Ct::Pr(P::F32)), ("tree.c.field_name.sender.x.energyx", Ct::Pr(P::F32)), ("x.tree.c.field_name.sender.x.energy", Ct::Pr(P::F32)), ("match", Ct::Pr(P::Bool)), ("tree.c.field_name.sender.current.matchx", Ct::Pr(P::Bool)), ("x.tree.c.field_name.sender.current.match", Ct::Pr(P::Bool)), ("move", vec_of(Ct::Pr(P::U64))), ("tree.c.field_name.sender.ret.current.movex", vec_of(Ct::Pr(P::U64))), ("x.tree.c.field_name.sender.ret.current.move", vec_of(Ct::Pr(P::U64))), ("pos", Ct::S(Sk::Chars)), ("tree.c.field_name.sender.ret.current.posx", Ct::S(Sk::Chars)), ("x.tree.c.field_name.sender.ret.current.pos", Ct::S(Sk::Chars)), ("i", Ct::S(Sk::Chars)), ("tree.c.field_name.sender.ret.current.ix", Ct::S(Sk::Chars)), ("x.tree.c.field_name.sender.ret.current.i", Ct::S(Sk::Chars)), ("p", Ct::S(Sk::Chars)), ("tree.c.field_name.sender.ret.px", Ct::S(Sk::Chars)), ("x.tree.c.field_name.sender.ret.p", Ct::S(Sk::Chars)), ("y", Ct::Arr(P::F32, 10)), ("tree.c.field_name.yx", Ct::Arr(P::F32, 10)), ("x.tree.c.field_name.y", Ct::Arr(P::F32, 10)), ("tree.c.field_name.movex", Ct::Pr(P::I16)), ("x.tree.c.field_name.move", Ct::Pr(P::I16)), ("data", vec_of(Ct::Pr(P::U32))), ("tree.c.type_name.time.datax", vec_of(Ct::Pr(P::U32))), ("x.tree.c.type_name.time.data", vec_of(Ct::Pr(P::U32))), ("tree.c.type_name.time.yx", Ct::Pr(P::U32)), ("x.tree.c.type_name.time.y", Ct::Pr(P::U32)), ("tree.c.type_name.treex", Ct::Arr(P::U8, 10)), ("x.tree.c.type_name.tree", Ct::Arr(P::U8, 10)), ("receiver", Ct::Pr(P::Bool)), ("tree.c.type_name.receiverx", Ct::Pr(P::Bool)), ("x.tree.c.type_name.receiver", Ct::Pr(P::Bool)), ("tree.c.type_name.vx", Ct::Pr(P::F32)), ("x.tree.c.type_name.v", Ct::Pr(P::F32)), ("a", Ct::Pr(P::I16)), ("tree.c.ax", Ct::Pr(P::I16)), ("x.tree.c.a", Ct::Pr(P::I16)), ("x10", Ct::S(Sk::Chars)), ("tree.c.x10x", Ct::S(Sk::Chars)), ("x.tree.c.x10", Ct::S(Sk::Chars)), ("tree.matchx", Ct::Pr(P::I32)), ("x.tree.match", Ct::Pr(P::I32)), ("tree.energyx", Ct::Pr(P::F32)), ("x.tree.energy", Ct::Pr(P::F32)), ("tree.ax", Ct::S(Sk::Chars)), ("x.tree.a", Ct::S(Sk::Chars)), ("func", Ct::Pr(P::U32)), ("tree.funcx", Ct::Pr(P::U32)), ("x.tree.func", Ct::Pr(P::U32))], read: read::<m10::Hit>, read_at: read_at::<m10::Hit>, write: Some(write::<m10::Hit>) },
        Shape { id: "m11::Sender", depth: 9, cols: vec![("b.energy", Ct::Arr(P::F64, 16), 1), ("b.y.func.ret.loop", Ct::S(Sk::Chars), 4), ("b.y.func.ret.id.field_name", Ct::Pr(P::U32), 5), ("b.y.func.ret.id.fn.field_name", Ct::Pr(P::I16), 6), ("b.y.func.ret.id.fn.func.channel.branch_name", Ct::Pr(P::I32), 8), ("b.y.func.ret.id.fn.func.channel.value", vec_of(Ct::Pr(P::U8)), 8), ("b.y.func.ret.id.fn.func.channel.i", Ct::Pr(P::U64), 8), ("b.y.func.ret.id.move", Ct::Pr(P::Bool), 5), ("b.y.func.ret.id.dir.x2.v.id", Ct::Pr(P::U8), 11), ("b.y.func.ret.id.dir.x2.tree.ret", Ct::S(Sk::Chars), 12), ("b.y.func.ret.id.dir.x2.tree.func", Ct::Pr(P::F64), 12), ("b.y.func.ret.id.dir.z.energy", Ct::Pr(P::I32), 13), ("b.y.func.ret.id.dir.z.branch_name.x10", vec_of(Ct::Pr(P::I32)), 14), ("b.y.func.ret.id.dir.z.branch_name.c", Ct::Pr(P::I8), 14), ("b.y.func.ret.id.dir.z.branch_name.pos", Ct::Arr(P::U64, 32), 14), ("b.y.func.ret.id.dir.z.p", Ct::Arr(P::I16, 7), 13), ("b.y.func.ret.id.dir.inner", Ct::S(Sk::Chars), 9), ("b.y.func.ret.id.i", Ct::Pr(P::I16), 5), ("b.y.func.ret.x10.inner", Ct::Arr(P::F32, 32), 15), ("b.y.func.ret.x10.ret", vec_of(Ct::Pr(P::I32)), 15), ("b.y.func.ret.channel", Ct::Arr(P::U8, 7), 4), ("b.y.func.ret.move", Ct::S(Sk::Chars), 4), ("b.y.func.receiver", Ct::Arr(P::Bool, 17), 3), ("b.y.func.channel", vec_of(Ct::Pr(P::I64)), 3), ("b.y.func.inner", Ct::Pr(P::F32), 3), ("b.pos", Ct::Arr(P::I8, 3), 1)], decoys: vec![("energy", Ct::Arr(P::F64, 16)), ("b.energyx", Ct::Arr(P::F64, 16)), ("x.b.energy", Ct::Arr(P::F64, 16)), ("loop", Ct::S(Sk::Chars)), ("b.y.func.ret.loopx", Ct::S(Sk::Chars)), ("x.b.y.func.ret.loop", Ct::S(Sk::Chars)), ("field_name", Ct::Pr(P::U32)), ("b.y.func.ret.id.field_namex", Ct::Pr(P::U32)), ("x.b.y.func.ret.id.field_name", Ct::Pr(P::U32)), ("b.y.func.ret.id.fn.field_namex", Ct::Pr(P::I16)), ("x.b.y.func.ret.id.fn.field_name", Ct::Pr(P::I16)), ("branch_name", Ct::Pr(P::I32)), ("b.y.func.ret.id.fn.func.channel.branch_namex", Ct::Pr(P::I32)), ("x.b.y.func.ret.id.fn.func.channel.branch_name", Ct::Pr(P::I32)), ("value", vec_of(Ct::Pr(P::U8))), ("b.y.func.ret.id.fn.func.channel.valuex", vec_of(Ct::Pr(P::U8))), ("x.b.y.func.ret.id.fn.func.channel.value", vec_of(Ct::Pr(P::U8))), ("i", Ct::Pr(P::U64)), ("b.y.func.ret.id.fn.func.channel.ix", Ct::Pr(P::U64)), ("x.b.y.func.ret.id.fn.func.channel.i", Ct::Pr(P::U64)), ("move", Ct::Pr(P::Bool)), ("b.y.func.ret.id.movex", Ct::Pr(P::Bool)), ("x.b.y.func.ret.id.move", Ct::Pr(P::Bool)), ("id", Ct::Pr(P::U8)), ("b.y.func.ret.id.dir.x2.v.idx", Ct::Pr(P::U8)), ("x.b.y.func.ret.id.dir.x2.v.id", Ct::Pr(P::U8)), ("ret", Ct::S(Sk::Chars)), ("b.y.func.ret.id.dir.x2.tree.retx", Ct::S(Sk::Chars)), ("x.b.y.func.ret.id.dir.x2.tree.ret", Ct::S(Sk::Chars)), ("func", Ct::Pr(P::F64)), ("b.y.func.ret.id.dir.x2.tree.funcx", Ct::Pr(P::F64)), ("x.b.y.func.ret.id.dir.x2.tree.func", Ct::Pr(P::F64)), ("b.y.func.ret.id.dir.z.energyx", Ct::Pr(P::I32)), ("x.b.y.func.ret.id.dir.z.energy", Ct::Pr(P::I32)), ("x10", vec_of(Ct::Pr(P::I32))), ("b.y.func.ret.id.dir.z.branch_name.x10x", vec_of(Ct::Pr(P::I32))), ("x.b.y.func.ret.id.dir.z.branch_name.x10", vec_of(Ct::Pr(P::I32))), ("c", Ct::Pr(P::I8)), ("b.y.func.ret.id.dir.z.branch_name.cx", Ct::Pr(P::I8)), ("x.b.y.func.ret.id.dir.z.branch_name.c", Ct::Pr(P::I8)), ("pos", Ct::Arr(P::U64, 32)), ("b.y.func.ret.id.dir.z.branch_name.posx", Ct::Arr(P::U64, 32)), ("x.b.y.func.ret.id.dir.z.branch_name.pos", Ct::Arr(P::U64, 32)), ("p", Ct::Arr(P::I16, 7)), ("b.y.func.ret.id.dir.z.px", Ct::Arr(P::I16, 7)), ("x.b.y.func.ret.id.dir.z.p", Ct::Arr(P::I16, 7)), ("inner", Ct::S(Sk::Chars)), ("b.y.func.ret.id.dir.innerx", Ct::S(Sk::Chars)), ("x.b.y.func.ret.id.dir.inner", Ct::S(Sk::Chars)), ("b.y.func.ret.id.ix", Ct::Pr(P::I16)), ("x.b.y.func.ret.id.i", Ct::Pr(P::I16)), ("b.y.func.ret.x10.innerx", Ct::Arr(P::F32, 32)), ("x.b.y.func.ret.x10.inner", Ct::Arr(P::F32, 32)), ("b.y.func.ret.x10.retx", vec_of(Ct::Pr(P::I32))), ("x.b.y.func.ret.x10.ret", vec_of(Ct::Pr(P::I32))), ("channel", Ct::Arr(P::U8, 7)), ("b.y.func.ret.channelx", Ct::Arr(P::U8, 7)), ("x.b.y.func.ret.channel", Ct::Arr(P::U8, 7)), ("b.y.func.ret.movex", Ct::S(Sk::Chars)), ("x.b.y.func.ret.move", Ct::S(Sk::Chars)), ("receiver", Ct::Arr(P::Bool, 17)), ("b.y.func.receiverx", Ct::Arr(P::Bool, 17)), ("x.b.y.func.receiver", Ct::Arr(P::Bool, 17)), ("b.y.func.channelx", vec_of(Ct::Pr(P::I64))), ("x.b.y.func.channel", vec_of(Ct::Pr(P::I64))), ("b.y.func.innerx", Ct::Pr(P::F32)), ("x.b.y.func.inner", Ct::Pr(P::F32)), ("b.posx", Ct::Arr(P::I8, 3)), ("x.b.pos", Ct::Arr(P::I8, 3))], read: read::<m11::Sender>, read_at: read_at::<m11::Sender>, write: Some(write::<m11::Sender>) },
        Shape { id: "m12::Event", depth: 1, cols: vec![("pre.fX26", Ct::Pr(P::Bool), 0), ("pre.dir", Ct::Pr(P::I64), 0), ("pre.sender", Ct::Arr(P::I32, 32), 0), ("abs_921", Ct::Arr(P::Bool, 1), 0), ("pre.long_field_name_to_be_stored_as_a_column", Ct::Pr(P::U64), 0)], decoys: vec![("xi", Ct::Pr(P::Bool)), ("fX26", Ct::Pr(P::Bool)), ("pre.xi", Ct::Pr(P::Bool)), ("pre.fX26x", Ct::Pr(P::Bool)), ("x.pre.fX26", Ct::Pr(P::Bool)), ("dir", Ct::Pr(P::I64)), ("pre.dirx", Ct::Pr(P::I64)), ("x.pre.dir", Ct::Pr(P::I64)), ("sender", Ct::Arr(P::I32, 32)), ("pre.senderx", Ct::Arr(P::I32, 32)), ("x.pre.sender", Ct::Arr(P::I32, 32)), ("i", Ct::Arr(P::Bool, 1)), ("pre.i", Ct::Arr(P::Bool, 1)), ("pre.abs_921", Ct::Arr(P::Bool, 1)), ("abs_921x", Ct::Arr(P::Bool, 1)), ("x.abs_921", Ct::Arr(P::Bool, 1)), ("long_field_name_to_be_stored_as_a_column", Ct::Pr(P::U64)), ("pre.long_field_name_to_be_stored_as_a_columnx", Ct::Pr(P::U64)), ("x.pre.long_field_name_to_be_stored_as_a_column", Ct::Pr(P::U64))], read: read::<m12::Event>, read_at: read_at::<m12::Event>, write: None },
        Shape { id: "m13::Channel", depth: 1, cols: vec![("T1", Ct::S(Sk::Chars), 0), ("Other.17", Ct::Pr(P::I8), 0), ("inner", Ct::Arr(P::I8, 17), 0)], decoys: vec![("T1x", Ct::S(Sk::Chars)), ("x.T1", Ct::S(Sk::Chars)), ("q", Ct::Pr(P::I8)), ("Other.17x", Ct::Pr(P::I8)), ("x.Other.17", Ct::Pr(P::I8)), ("innerx", Ct::Arr(P::I8, 17)), ("x.inner", Ct::Arr(P::I8, 17))], read: read::<m13::Channel>, read_at: read_at::<m13::Channel>, write: None },
        Shape { id: "m14::Sender", depth: 1, cols: vec![("m_type", Ct::Arr(P::I64, 10), 0), ("m_zzz50", Ct::S(Sk::TString), 0), ("m_a", vec_of(vec_of(Ct::Pr(P::I16))), 0), ("Ly", set_of(Ct::Pr(P::I32)), 0), ("m_nhits", Ct::S(Sk::TString), 0), ("m_func", Ct::Pr(P::F64), 0), ("m_sender", Ct::Pr(P::U32), 0)], decoys: vec![("type", Ct::Arr(P::I64, 10)), ("m_typex", Ct::Arr(P::I64, 10)), ("x.m_type", Ct::Arr(P::I64, 10)), ("energy", Ct::S(Sk::TString)), ("zzz50", Ct::S(Sk::TString)), ("m_energy", Ct::S(Sk::TString)), ("m_zzz50x", Ct::S(Sk::TString)), ("x.m_zzz50", Ct::S(Sk::TString)), ("a", vec_of(vec_of(Ct::Pr(P::I16)))), ("m_ax", vec_of(vec_of(Ct::Pr(P::I16)))), ("x.m_a", vec_of(vec_of(Ct::Pr(P::I16)))), ("y", set_of(Ct::Pr(P::I32))), ("m_y", set_of(Ct::Pr(P::I32))), ("m_Ly", set_of(Ct::Pr(P::I32))), ("Lyx", set_of(Ct::Pr(P::I32))), ("x.Ly", set_of(Ct::Pr(P::I32))), ("nhits", Ct::S(Sk::TString)), ("m_nhitsx", Ct::S(Sk::TString)), ("x.m_nhits", Ct::S(Sk::TString)), ("func", Ct::Pr(P::F64)), ("m_funcx", Ct::Pr(P::F64)), ("x.m_func", Ct::Pr(P::F64)), ("sender", Ct::Pr(P::U32)), ("m_senderx", Ct::Pr(P::U32)), ("x.m_sender", Ct::Pr(P::U32))], read: read::<m14::Sender>, read_at: read_at::<m14::Sender>, write: None },
        Shape { id: "m15::Track", depth: 1, cols: vec![("x", map_of(Ct::Pr(P::I32), Ct::Pr(P::F64)), 0), ("p", Ct::Pr(P::I16), 0)], decoys: vec![("xx", map_of(Ct::Pr(P::I32), Ct::Pr(P::F64))), ("x.x", map_of(Ct::Pr(P::I32), Ct::Pr(P::F64))), ("px", Ct::Pr(P::I16)), ("x.p", Ct::Pr(P::I16))], read: read::<m15::Track>, read_at: read_at::<m15::Track>, write: None },
        Shape { id: "m16::Sender", depth: 1, cols: vec![("P_u", set_of(Ct::Pr(P::I32)), 0)], decoys: vec![("_u", set_of(Ct::Pr(P::I32))), ("P_ux", set_of(Ct::Pr(P::I32))), ("x.P_u", set_of(Ct::Pr(P::I32)))], read: read::<m16::Sender>, read_at: read_at::<m16::Sender>, write: None },
        Shape { id: "m17::Run", depth: 2, cols: vec![("loop", vec_of(Ct::Pr(P::F64)), 0), ("_u", Ct::Pr(P::U64), 0), ("x2", Ct::S(Sk::TString), 0), ("z.g_tree", Ct::Sl(P::I8), 1), ("z.g_s", Ct::Sl(P::U8), 1), ("abs_512.l_v", Ct::Sl(P::I16), 2), ("abs_512.Lid", Ct::Sl(P::I16), 2), ("abs_512.g_energy", Ct::Sl(P::Bool), 2), ("l_rn_59.pre.func", Ct::Pr(P::U32), 3), ("abs_120", Ct::Pr(P::I16), 3), ("l_rn_59.LfX1", Ct::Pr(P::I64), 3), ("l_rn_59.pre.c", Ct::Pr(P::I32), 3), ("LT1.g_type", Ct::Sl(P::F64), 4), ("LT1.g_next", Ct::Sl(P::I16), 4)], decoys: vec![("loopx", vec_of(Ct::Pr(P::F64))), ("x.loop", vec_of(Ct::Pr(P::F64))), ("_ux", Ct::Pr(P::U64)), ("x._u", Ct::Pr(P::U64)), ("x2x", Ct::S(Sk::TString)), ("x.x2", Ct::S(Sk::TString)), ("tree", Ct::Sl(P::I8)), ("z.tree", Ct::Sl(P::I8)), ("g_tree", Ct::Sl(P::I8)), ("z.g_treex", Ct::Sl(P::I8)), ("x.z.g_tree", Ct::Sl(P::I8)), ("s", Ct::Sl(P::U8)), ("z.s", Ct::Sl(P::U8)), ("g_s", Ct::Sl(P::U8)), ("z.g_sx", Ct::Sl(P::U8)), ("x.z.g_s", Ct::Sl(P::U8)), ("v", Ct::Sl(P::I16)), ("abs_512.v", Ct::Sl(P::I16)), ("g_v", Ct::Sl(P::I16)), ("abs_512.g_v", Ct::Sl(P::I16)), ("g_l_v", Ct::Sl(P::I16)), ("abs_512.l_vx", Ct::Sl(P::I16)), ("x.abs_512.l_v", Ct::Sl(P::I16)), ("id", Ct::Sl(P::I16)), ("abs_512.id", Ct::Sl(P::I16)), ("g_id", Ct::Sl(P::I16)), ("abs_512.g_id", Ct::Sl(P::I16)), ("g_Lid", Ct::Sl(P::I16)), ("abs_512.Lidx", Ct::Sl(P::I16)), ("x.abs_512.Lid", Ct::Sl(P::I16)), ("energy", Ct::Sl(P::Bool)), ("abs_512.energy", Ct::Sl(P::Bool)), ("g_energy", Ct::Sl(P::Bool)), ("abs_512.g_energyx", Ct::Sl(P::Bool)), ("x.abs_512.g_energy", Ct::Sl(P::Bool)), ("func", Ct::Pr(P::U32)), ("l_rn_59.func", Ct::Pr(P::U32)), ("pre.func", Ct::Pr(P::U32)), ("l_rn_59.pre.funcx", Ct::Pr(P::U32)), ("x.l_rn_59.pre.func", Ct::Pr(P::U32)), ("sender", Ct::Pr(P::I16)), ("l_rn_59.sender", Ct::Pr(P::I16)), ("pre.sender", Ct::Pr(P::I16)), ("l_rn_59.pre.sender", Ct::Pr(P::I16)), ("pre.abs_120", Ct::Pr(P::I16)), ("l_rn_59.abs_120", Ct::Pr(P::I16)), ("abs_120x", Ct::Pr(P::I16)), ("x.abs_120", Ct::Pr(P::I16)), ("nhits", Ct::Pr(P::I64)), ("fX1", Ct::Pr(P::I64)), ("l_rn_59.nhits", Ct::Pr(P::I64)), ("l_rn_59.fX1", Ct::Pr(P::I64)), ("pre.nhits", Ct::Pr(P::I64)), ("l_rn_59.pre.nhits", Ct::Pr(P::I64)), ("pre.LfX1", Ct::Pr(P::I64)), ("l_rn_59.LfX1x", Ct::Pr(P::I64)), ("x.l_rn_59.LfX1", Ct::Pr(P::I64)), ("c", Ct::Pr(P::I32)), ("l_rn_59.c", Ct::Pr(P::I32)), ("pre.c", Ct::Pr(P::I32)), ("l_rn_59.pre.cx", Ct::Pr(P::I32)), ("x.l_rn_59.pre.c", Ct::Pr(P::I32)), ("type", Ct::Sl(P::F64)), ("LT1.type", Ct::Sl(P::F64)), ("g_type", Ct::Sl(P::F64)), ("LT1.g_typex", Ct::Sl(P::F64)), ("x.LT1.g_type", Ct::Sl(P::F64)), ("next", Ct::Sl(P::I16)), ("LT1.next", Ct::Sl(P::I16)), ("g_next", Ct::Sl(P::I16)), ("LT1.g_nextx", Ct::Sl(P::I16)), ("x.LT1.g_next", Ct::Sl(P::I16))], read: read::<m17::Run>, read_at: read_at::<m17::Run>, write: None },
        Shape { id: "m18::Event", depth: 1, cols: vec![("LOther.7", Ct::Pr(P::U32), 0), ("Z248", vec_of(Ct::S(Sk::Std)), 0)], decoys: vec![("z", Ct::Pr(P::U32)), ("Other.7", Ct::Pr(P::U32)), ("LOther.7x", Ct::Pr(P::U32)), ("x.LOther.7", Ct::Pr(P::U32)), ("current", vec_of(Ct::S(Sk::Std))), ("Z248x", vec_of(Ct::S(Sk::Std))), ("x.Z248", vec_of(Ct::S(Sk::Std)))], read: read::<m18::Event>, read_at: read_at::<m18::Event>, write: None },
        Shape { id: "m19::Header", depth: 2, cols: vec![("Pa.Pv", Ct::Arr(P::U32, 16), 1), ("Pq", Ct::Arr(P::Bool, 10), 0)], decoys: vec![("v", Ct::Arr(P::U32, 16)), ("Pa.v", Ct::Arr(P::U32, 16)), ("Pv", Ct::Arr(P::U32, 16)), ("Pa.Pvx", Ct::Arr(P::U32, 16)), ("x.Pa.Pv", Ct::Arr(P::U32, 16)), ("q", Ct::Arr(P::Bool, 10)), ("Pqx", Ct::Arr(P::Bool, 10)), ("x.Pq", Ct::Arr(P::Bool, 10))], read: read::<m19::Header>, read_at: read_at::<m19::Header>, write: None },
        Shape { id: "m20::Slice3", depth: 2, cols: vec![("nhits.loc.rn_59", Ct::Arr(P::F64, 5), 1), ("nhits.g_it", vec_of(Ct::Pr(P::I16)), 1), ("nhits.g_T1", vec_of(Ct::Pr(P::I8)), 1), ("nhits.g_a", Ct::Arr(P::I8, 5), 1), ("Top.level925", Ct::Pr(P::U8), 1), ("z", vec_of(Ct::Pr(P::F64)), 0)], decoys: vec![("rn_59", Ct::Arr(P::F64, 5)), ("nhits.z", Ct::Arr(P::F64, 5)), ("nhits.rn_59", Ct::Arr(P::F64, 5)), ("g_z", Ct::Arr(P::F64, 5)), ("nhits.g_z", Ct::Arr(P::F64, 5)), ("g_loc.rn_59", Ct::Arr(P::F64, 5)), ("nhits.loc.rn_59x", Ct::Arr(P::F64, 5)), ("x.nhits.loc.rn_59", Ct::Arr(P::F64, 5)), ("it", vec_of(Ct::Pr(P::I16))), ("nhits.it", vec_of(Ct::Pr(P::I16))), ("g_it", vec_of(Ct::Pr(P::I16))), ("nhits.g_itx", vec_of(Ct::Pr(P::I16))), ("x.nhits.g_it", vec_of(Ct::Pr(P::I16))), ("T1", vec_of(Ct::Pr(P::I8))), ("nhits.T1", vec_of(Ct::Pr(P::I8))), ("g_T1", vec_of(Ct::Pr(P::I8))), ("nhits.g_T1x", vec_of(Ct::Pr(P::I8))), ("x.nhits.g_T1", vec_of(Ct::Pr(P::I8))), ("a", Ct::Arr(P::I8, 5)), ("nhits.a", Ct::Arr(P::I8, 5)), ("g_a", Ct::Arr(P::I8, 5)), ("nhits.g_ax", Ct::Arr(P::I8, 5)), ("x.nhits.g_a", Ct::Arr(P::I8, 5)), ("s", Ct::Pr(P::U8)), ("nhits.s", Ct::Pr(P::U8)), ("g_s", Ct::Pr(P::U8)), ("nhits.g_s", Ct::Pr(P::U8)), ("g_Top.level925", Ct::Pr(P::U8)), ("nhits.Top.level925", Ct::Pr(P::U8)), ("Top.level925x", Ct::Pr(P::U8)), ("x.Top.level925", Ct::Pr(P::U8)), ("zx", vec_of(Ct::Pr(P::F64))), ("x.z", vec_of(Ct::Pr(P::F64)))], read: read::<m20::Slice3>, read_at: read_at::<m20::Slice3>, write: None },
        Shape { id: "m21::Track", depth: 3, cols: vec![("loop", Ct::Arr(P::U64, 32), 0), ("a.Lrn_4.Penergy", Ct::Sl(P::U32), 2), ("Top.level202.a", Ct::Pr(P::U64), 3), ("type_name", vec_of(Ct::Pr(P::F64)), 0), ("zzz73.l_ret", Ct::Sl(P::F64), 4), ("data.m_i", Ct::Sl(P::U32), 5), ("data.m_inner", Ct::Sl(P::F32), 5), ("data.m_Other.15", Ct::Sl(P::U16), 5), ("data.m_fX96", Ct::Sl(P::U32), 5), ("v.m_receiver", Ct::Sl(P::U8), 6), ("v.m_x10", Ct::Sl(P::F32), 6), ("abs_419", Ct::Sl(P::U64), 6), ("x", vec_of(Ct::Pr(P::U32)), 0)], decoys: vec![("loopx", Ct::Arr(P::U64, 32)), ("x.loop", Ct::Arr(P::U64, 32)), ("energy", Ct::Sl(P::U32)), ("a.Lrn_4.energy", Ct::Sl(P::U32)), ("Penergy", Ct::Sl(P::U32)), ("a.Lrn_4.Penergyx", Ct::Sl(P::U32)), ("x.a.Lrn_4.Penergy", Ct::Sl(P::U32)), ("a", Ct::Pr(P::U64)), ("Top.level202.ax", Ct::Pr(P::U64)), ("x.Top.level202.a", Ct::Pr(P::U64)), ("type_namex", vec_of(Ct::Pr(P::F64))), ("x.type_name", vec_of(Ct::Pr(P::F64))), ("ret", Ct::Sl(P::F64)), ("zzz73.ret", Ct::Sl(P::F64)), ("l_ret", Ct::Sl(P::F64)), ("zzz73.l_retx", Ct::Sl(P::F64)), ("x.zzz73.l_ret", Ct::Sl(P::F64)), ("i", Ct::Sl(P::U32)), ("data.i", Ct::Sl(P::U32)), ("m_i", Ct::Sl(P::U32)), ("data.m_ix", Ct::Sl(P::U32)), ("x.data.m_i", Ct::Sl(P::U32)), ("inner", Ct::Sl(P::F32)), ("data.inner", Ct::Sl(P::F32)), ("m_inner", Ct::Sl(P::F32)), ("data.m_innerx", Ct::Sl(P::F32)), ("x.data.m_inner", Ct::Sl(P::F32)), ("it", Ct::Sl(P::U16)), ("Other.15", Ct::Sl(P::U16)), ("data.it", Ct::Sl(P::U16)), ("data.Other.15", Ct::Sl(P::U16)), ("m_it", Ct::Sl(P::U16)), ("data.m_it", Ct::Sl(P::U16)), ("m_Other.15", Ct::Sl(P::U16)), ("data.m_Other.15x", Ct::Sl(P::U16)), ("x.data.m_Other.15", Ct::Sl(P::U16)), ("fX96", Ct::Sl(P::U32)), ("data.type_name", Ct::Sl(P::U32)), ("data.fX96", Ct::Sl(P::U32)), ("m_type_name", Ct::Sl(P::U32)), ("data.m_type_name", Ct::Sl(P::U32)), ("m_fX96", Ct::Sl(P::U32)), ("data.m_fX96x", Ct::Sl(P::U32)), ("x.data.m_fX96", Ct::Sl(P::U32)), ("receiver", Ct::Sl(P::U8)), ("v.receiver", Ct::Sl(P::U8)), ("m_receiver", Ct::Sl(P::U8)), ("v.m_receiverx", Ct::Sl(P::U8)), ("x.v.m_receiver", Ct::Sl(P::U8)), ("x10", Ct::Sl(P::F32)), ("v.x10", Ct::Sl(P::F32)), ("m_x10", Ct::Sl(P::F32)), ("v.m_x10x", Ct::Sl(P::F32)), ("x.v.m_x10", Ct::Sl(P::F32)), ("_u", Ct::Sl(P::U64)), ("v._u", Ct::Sl(P::U64)), ("m__u", Ct::Sl(P::U64)), ("v.m__u", Ct::Sl(P::U64)), ("m_abs_419", Ct::Sl(P::U64)), ("v.abs_419", Ct::Sl(P::U64)), ("abs_419x", Ct::Sl(P::U64)), ("x.abs_419", Ct::Sl(P::U64)), ("xx", vec_of(Ct::Pr(P::U32))), ("x.x", vec_of(Ct::Pr(P::U32)))], read: read::<m21::Track>, read_at: read_at::<m21::Track>, write: None },
        Shape { id: "m22::Run", depth: 2, cols: vec![("g_type_name.m_b", Ct::Sl(P::U32), 1), ("g_type_name.m_x1", Ct::Sl(P::I64), 1)], decoys: vec![("b", Ct::Sl(P::U32)), ("g_type_name.b", Ct::Sl(P::U32)), ("m_b", Ct::Sl(P::U32)), ("g_type_name.m_bx", Ct::Sl(P::U32)), ("x.g_type_name.m_b", Ct::Sl(P::U32)), ("x1", Ct::Sl(P::I64)), ("g_type_name.x1", Ct::Sl(P::I64)), ("m_x1", Ct::Sl(P::I64)), ("g_type_name.m_x1x", Ct::Sl(P::I64)), ("x.g_type_name.m_x1", Ct::Sl(P::I64))], read: read::<m22::Run>, read_at: read_at::<m22::Run>, write: None },
        Shape { id: "m23::Run", depth: 3, cols: vec![("m_Other.97.m_x2.g_type_name", Ct::Sl(P::U8), 2), ("m_Other.97.m_x2.Ltype", Ct::Sl(P::I16), 2), ("m_Other.97.m_x2.g_q", Ct::Sl(P::U32), 2), ("m_Other.97.m_x2.g_x10", Ct::Sl(P::I32), 2), ("m_Other.97.m_z", Ct::Pr(P::I32), 1), ("m_Other.97.m_id.g_flags", Ct::S(Sk::Chars), 3), ("m_Other.97.m_id.loc.long_field_name_to_be_stored_as_a_column", Ct::Pr(P::I16), 3), ("m_Other.97.m_id.g_x2", Ct::S(Sk::Std), 3), ("m_Other.97.m_loop", vec_of(Ct::Pr(P::U16)), 1), ("loc.fX50", Ct::Pr(P::I32), 0), ("Top.level684", Ct::Pr(P::U32), 0)], decoys: vec![("type_name", Ct::Sl(P::U8)), ("m_Other.97.m_x2.type_name", Ct::Sl(P::U8)), ("g_type_name", Ct::Sl(P::U8)), ("m_Other.97.m_x2.g_type_namex", Ct::Sl(P::U8)), ("x.m_Other.97.m_x2.g_type_name", Ct::Sl(P::U8)), ("type", Ct::Sl(P::I16)), ("m_Other.97.m_x2.type", Ct::Sl(P::I16)), ("g_type", Ct::Sl(P::I16)), ("m_Other.97.m_x2.g_type", Ct::Sl(P::I16)), ("g_Ltype", Ct::Sl(P::I16)), ("m_Other.97.m_x2.Ltypex", Ct::Sl(P::I16)), ("x.m_Other.97.m_x2.Ltype", Ct::Sl(P::I16)), ("q", Ct::Sl(P::U32)), ("m_Other.97.m_x2.q", Ct::Sl(P::U32)), ("g_q", Ct::Sl(P::U32)), ("m_Other.97.m_x2.g_qx", Ct::Sl(P::U32)), ("x.m_Other.97.m_x2.g_q", Ct::Sl(P::U32)), ("x10", Ct::Sl(P::I32)), ("m_Other.97.m_x2.x10", Ct::Sl(P::I32)), ("g_x10", Ct::Sl(P::I32)), ("m_Other.97.m_x2.g_x10x", Ct::Sl(P::I32)), ("x.m_Other.97.m_x2.g_x10", Ct::Sl(P::I32)), ("z", Ct::Pr(P::I32)), ("m_Other.97.z", Ct::Pr(P::I32)), ("m_z", Ct::Pr(P::I32)), ("m_Other.97.m_zx", Ct::Pr(P::I32)), ("x.m_Other.97.m_z", Ct::Pr(P::I32)), ("flags", Ct::S(Sk::Chars)), ("m_Other.97.m_id.flags", Ct::S(Sk::Chars)), ("g_flags", Ct::S(Sk::Chars)), ("m_Other.97.m_id.g_flagsx", Ct::S(Sk::Chars)), ("x.m_Other.97.m_id.g_flags", Ct::S(Sk::Chars)), ("long_field_name_to_be_stored_as_a_column", Ct::Pr(P::I16)), ("m_Other.97.m_id.long_field_name_to_be_stored_as_a_column", Ct::Pr(P::I16)), ("g_long_field_name_to_be_stored_as_a_column", Ct::Pr(P::I16)), ("m_Other.97.m_id.g_long_field_name_to_be_stored_as_a_column", Ct::Pr(P::I16)), ("g_loc.long_field_name_to_be_stored_as_a_column", Ct::Pr(P::I16)), ("m_Other.97.m_id.loc.long_field_name_to_be_stored_as_a_columnx", Ct::Pr(P::I16)), ("x.m_Other.97.m_id.loc.long_field_name_to_be_stored_as_a_column", Ct::Pr(P::I16)), ("x2", Ct::S(Sk::Std)), ("m_Other.97.m_id.x2", Ct::S(Sk::Std)), ("g_x2", Ct::S(Sk::Std)), ("m_Other.97.m_id.g_x2x", Ct::S(Sk::Std)), ("x.m_Other.97.m_id.g_x2", Ct::S(Sk::Std)), ("loop", vec_of(Ct::Pr(P::U16))), ("m_Other.97.loop", vec_of(Ct::Pr(P::U16))), ("m_loop", vec_of(Ct::Pr(P::U16))), ("m_Other.97.m_loopx", vec_of(Ct::Pr(P::U16))), ("x.m_Other.97.m_loop", vec_of(Ct::Pr(P::U16))), ("fX50", Ct::Pr(P::I32)), ("m_x10", Ct::Pr(P::I32)), ("m_loc.fX50", Ct::Pr(P::I32)), ("loc.fX50x", Ct::Pr(P::I32)), ("x.loc.fX50", Ct::Pr(P::I32)), ("field_name", Ct::Pr(P::U32)), ("m_field_name", Ct::Pr(P::U32)), ("m_Top.level684", Ct::Pr(P::U32)), ("Top.level684x", Ct::Pr(P::U32)), ("x.Top.level684", Ct::Pr(P::U32))], read: read::<m23::Run>, read_at: read_at::<m23::Run>, write: None },
        Shape { id: "m24::Receiver", depth: 2, cols: vec![("g__u", vec_of(Ct::Pr(P::Bool)), 0), ("g_value", Ct::S(Sk::TString), 0), ("g_inner", Ct::Pr(P::I16), 0), ("g_x1.pre.data", Ct::Pr(P::U8), 1), ("g_x1.pre.current", Ct::S(Sk::Std), 1), ("g_sender", Ct::Arr(P::I32, 5), 0)], decoys: vec![("_u", vec_of(Ct::Pr(P::Bool))), ("g__ux", vec_of(Ct::Pr(P::Bool))), ("x.g__u", vec_of(Ct::Pr(P::Bool))), ("value", Ct::S(Sk::TString)), ("g_valuex", Ct::S(Sk::TString)), ("x.g_value", Ct::S(Sk::TString)), ("inner", Ct::Pr(P::I16)), ("g_innerx", Ct::Pr(P::I16)), ("x.g_inner", Ct::Pr(P::I16)), ("data", Ct::Pr(P::U8)), ("g_x1.data", Ct::Pr(P::U8)), ("pre.data", Ct::Pr(P::U8)), ("g_x1.pre.datax", Ct::Pr(P::U8)), ("x.g_x1.pre.data", Ct::Pr(P::U8)), ("current", Ct::S(Sk::Std)), ("g_x1.current", Ct::S(Sk::Std)), ("pre.current", Ct::S(Sk::Std)), ("g_x1.pre.currentx", Ct::S(Sk::Std)), ("x.g_x1.pre.current", Ct::S(Sk::Std)), ("sender", Ct::Arr(P::I32, 5)), ("g_senderx", Ct::Arr(P::I32, 5)), ("x.g_sender", Ct::Arr(P::I32, 5))], read: read::<m24::Receiver>, read_at: read_at::<m24::Receiver>, write: None },
        Shape { id: "m25::Rect", depth: 3, cols: vec![("g_xi.m_type.m_branch_name", Ct::Pr(P::U16), 2), ("g_xi.m_type.m_s", Ct::Pr(P::U8), 2), ("g_xi.m_s.pre.current", Ct::Sl(P::I64), 3), ("g_xi.m_s.pre.energy", Ct::Sl(P::I32), 3), ("g_xi.m_s.pre.Other.19", Ct::Sl(P::I8), 3), ("g_xi.m_s.Lret", Ct::Sl(P::U32), 3), ("abs_506", Ct::Sl(P::F64), 3), ("g_xi.m_s.pre.v", Ct::Sl(P::U8), 3), ("g_xi.m_s.pre.func", Ct::Sl(P::F64), 3), ("g_xi.m_value.x1", Ct::Sl(P::I16), 4), ("g_xi.m_value.x10", Ct::Sl(P::U64), 4), ("g_xi.m_value.xi", Ct::Sl(P::U32), 4), ("g_xi.m_value.type", Ct::Sl(P::U32), 4), ("g_xi.m_nhits", Ct::Pr(P::I8), 1), ("g_xi.m_it.m_pos", Ct::Sl(P::I32), 5), ("g_xi.m_it.m_zzz18", Ct::Sl(P::I64), 5)], decoys: vec![("branch_name", Ct::Pr(P::U16)), ("g_xi.m_type.branch_name", Ct::Pr(P::U16)), ("m_branch_name", Ct::Pr(P::U16)), ("g_xi.m_type.m_branch_namex", Ct::Pr(P::U16)), ("x.g_xi.m_type.m_branch_name", Ct::Pr(P::U16)), ("s", Ct::Pr(P::U8)), ("g_xi.m_type.s", Ct::Pr(P::U8)), ("m_s", Ct::Pr(P::U8)), ("g_xi.m_type.m_sx", Ct::Pr(P::U8)), ("x.g_xi.m_type.m_s", Ct::Pr(P::U8)), ("current", Ct::Sl(P::I64)), ("g_xi.m_s.current", Ct::Sl(P::I64)), ("pre.current", Ct::Sl(P::I64)), ("g_xi.m_s.pre.currentx", Ct::Sl(P::I64)), ("x.g_xi.m_s.pre.current", Ct::Sl(P::I64)), ("energy", Ct::Sl(P::I32)), ("g_xi.m_s.energy", Ct::Sl(P::I32)), ("pre.energy", Ct::Sl(P::I32)), ("g_xi.m_s.pre.energyx", Ct::Sl(P::I32)), ("x.g_xi.m_s.pre.energy", Ct::Sl(P::I32)), ("dir", Ct::Sl(P::I8)), ("Other.19", Ct::Sl(P::I8)), ("g_xi.m_s.dir", Ct::Sl(P::I8)), ("g_xi.m_s.Other.19", Ct::Sl(P::I8)), ("pre.dir", Ct::Sl(P::I8)), ("g_xi.m_s.pre.dir", Ct::Sl(P::I8)), ("pre.Other.19", Ct::Sl(P::I8)), ("g_xi.m_s.pre.Other.19x", Ct::Sl(P::I8)), ("x.g_xi.m_s.pre.Other.19", Ct::Sl(P::I8)), ("ret", Ct::Sl(P::U32)), ("g_xi.m_s.ret", Ct::Sl(P::U32)), ("pre.ret", Ct::Sl(P::U32)), ("g_xi.m_s.pre.ret", Ct::Sl(P::U32)), ("pre.Lret", Ct::Sl(P::U32)), ("g_xi.m_s.Lretx", Ct::Sl(P::U32)), ("x.g_xi.m_s.Lret", Ct::Sl(P::U32)), ("fn", Ct::Sl(P::F64)), ("g_xi.m_s.fn", Ct::Sl(P::F64)), ("pre.fn", Ct::Sl(P::F64)), ("g_xi.m_s.pre.fn", Ct::Sl(P::F64)), ("pre.abs_506", Ct::Sl(P::F64)), ("g_xi.m_s.abs_506", Ct::Sl(P::F64)), ("abs_506x", Ct::Sl(P::F64)), ("x.abs_506", Ct::Sl(P::F64)), ("v", Ct::Sl(P::U8)), ("g_xi.m_s.v", Ct::Sl(P::U8)), ("pre.v", Ct::Sl(P::U8)), ("g_xi.m_s.pre.vx", Ct::Sl(P::U8)), ("x.g_xi.m_s.pre.v", Ct::Sl(P::U8)), ("func", Ct::Sl(P::F64)), ("g_xi.m_s.func", Ct::Sl(P::F64)), ("pre.func", Ct::Sl(P::F64)), ("g_xi.m_s.pre.funcx", Ct::Sl(P::F64)), ("x.g_xi.m_s.pre.func", Ct::Sl(P::F64)), ("x1", Ct::Sl(P::I16)), ("g_xi.m_value.x1x", Ct::Sl(P::I16)), ("x.g_xi.m_value.x1", Ct::Sl(P::I16)), ("x10", Ct::Sl(P::U64)), ("g_xi.m_value.x10x", Ct::Sl(P::U64)), ("x.g_xi.m_value.x10", Ct::Sl(P::U64)), ("xi", Ct::Sl(P::U32)), ("g_xi.m_value.xix", Ct::Sl(P::U32)), ("x.g_xi.m_value.xi", Ct::Sl(P::U32)), ("type", Ct::Sl(P::U32)), ("g_xi.m_value.typex", Ct::Sl(P::U32)), ("x.g_xi.m_value.type", Ct::Sl(P::U32)), ("nhits", Ct::Pr(P::I8)), ("g_xi.nhits", Ct::Pr(P::I8)), ("m_nhits", Ct::Pr(P::I8)), ("g_xi.m_nhitsx", Ct::Pr(P::I8)), ("x.g_xi.m_nhits", Ct::Pr(P::I8)), ("pos", Ct::Sl(P::I32)), ("g_xi.m_it.pos", Ct::Sl(P::I32)), ("m_pos", Ct::Sl(P::I32)), ("g_xi.m_it.m_posx", Ct::Sl(P::I32)), ("x.g_xi.m_it.m_pos", Ct::Sl(P::I32)), ("data", Ct::Sl(P::I64)), ("zzz18", Ct::Sl(P::I64)), ("g_xi.m_it.data", Ct::Sl(P::I64)), ("g_xi.m_it.zzz18", Ct::Sl(P::I64)), ("m_data", Ct::Sl(P::I64)), ("g_xi.m_it.m_data", Ct::Sl(P::I64)), ("m_zzz18", Ct::Sl(P::I64)), ("g_xi.m_it.m_zzz18x", Ct::Sl(P::I64)), ("x.g_xi.m_it.m_zzz18", Ct::Sl(P::I64))], read: read::<m25::Rect>, read_at: read_at::<m25::Rect>, write: None },
        Shape { id: "m26::Header", depth: 4, cols: vec![("Ptree.pre.b.pre.func.g_energy", Ct::Sl(P::I64), 3), ("Ptree.pre.b.pre.func.g_a", Ct::Sl(P::I32), 3), ("abs_17", Ct::S(Sk::Std), 0), ("Px.m_move.pre.channel", vec_of(Ct::S(Sk::Std)), 5), ("Px.m_flags.zzz82", Ct::Arr(P::F32, 1), 6), ("Px.m_flags.branch_name", Ct::Pr(P::F64), 6)], decoys: vec![("energy", Ct::Sl(P::I64)), ("Ptree.pre.b.pre.func.energy", Ct::Sl(P::I64)), ("g_energy", Ct::Sl(P::I64)), ("Ptree.pre.b.pre.func.g_energyx", Ct::Sl(P::I64)), ("x.Ptree.pre.b.pre.func.g_energy", Ct::Sl(P::I64)), ("a", Ct::Sl(P::I32)), ("Ptree.pre.b.pre.func.a", Ct::Sl(P::I32)), ("g_a", Ct::Sl(P::I32)), ("Ptree.pre.b.pre.func.g_ax", Ct::Sl(P::I32)), ("x.Ptree.pre.b.pre.func.g_a", Ct::Sl(P::I32)), ("x2", Ct::S(Sk::Std)), ("Px2", Ct::S(Sk::Std)), ("Pabs_17", Ct::S(Sk::Std)), ("abs_17x", Ct::S(Sk::Std)), ("x.abs_17", Ct::S(Sk::Std)), ("channel", vec_of(Ct::S(Sk::Std))), ("Px.m_move.channel", vec_of(Ct::S(Sk::Std))), ("pre.channel", vec_of(Ct::S(Sk::Std))), ("Px.m_move.pre.channelx", vec_of(Ct::S(Sk::Std))), ("x.Px.m_move.pre.channel", vec_of(Ct::S(Sk::Std))), ("q", Ct::Arr(P::F32, 1)), ("zzz82", Ct::Arr(P::F32, 1)), ("Px.m_flags.q", Ct::Arr(P::F32, 1)), ("Px.m_flags.zzz82x", Ct::Arr(P::F32, 1)), ("x.Px.m_flags.zzz82", Ct::Arr(P::F32, 1)), ("branch_name", Ct::Pr(P::F64)), ("Px.m_flags.branch_namex", Ct::Pr(P::F64)), ("x.Px.m_flags.branch_name", Ct::Pr(P::F64))], read: read::<m26::Header>, read_at: read_at::<m26::Header>, write: None },
        Shape { id: "m27::Deep", depth: 5, cols: vec![("tree.g_v.m_a", Ct::Arr(P::I64, 32), 2), ("tree.Lzzz16", Ct::Pr(P::F32), 1), ("tree.g_zzz4.m_data", Ct::Sl(P::Bool), 3), ("tree.g_rn_15.v", Ct::Sl(P::I8), 4), ("tree.g_rn_15.dir", Ct::Sl(P::U16), 4), ("struct_instance", Ct::Pr(P::U8), 0), ("Z20", Ct::Sl(P::U16), 5), ("Lv.LfX0", Ct::Sl(P::I16), 5), ("Lv.Ppos", Ct::Sl(P::U8), 5), ("Lv.Pv", Ct::Sl(P::U64), 5), ("Lv.Ptype", Ct::Sl(P::U64), 5), ("l_time.LfX23.POther.72.pre.flags", Ct::Pr(P::U16), 8), ("l_time.LfX23.POther.72.pre.xi", Ct::Pr(P::U64), 8), ("l_time.LfX23.POther.72.pre.x", Ct::Pr(P::U16), 8), ("Top.level978.g_energy", Ct::Arr(P::F64, 17), 10), ("Top.level978.g_id", Ct::Pr(P::U8), 10), ("Top.level978.g_inner", Ct::Pr(P::I64), 10), ("l_time.LfX23.loc.x10.Pa.b", Ct::Arr(P::U64, 7), 11), ("l_time.LfX23.loc.x10.Pa.long_field_name_to_be_stored_as_a_column", vec_of(Ct::Pr(P::Bool)), 11), ("l_time.LfX23.loc.x10.Pxi.pre.next", Ct::Sl(P::F32), 12), ("l_time.LfX23.loc.x10.Pxi.pre.branch_name", Ct::Sl(P::F32), 12), ("l_time.LfX23.loc.x10.Pchannel.POther.60", Ct::Sl(P::I32), 13), ("l_time.LfX23.loc.x10.Pchannel.Pfield_name", Ct::Sl(P::F32), 13), ("l_time.LfX23.loc.x10.Pchannel.POther.25", Ct::Sl(P::Bool), 13), ("l_time.LfX23.loc.x10.Pchannel.Pi", Ct::Sl(P::I32), 13), ("l_time.LfX23.loc.x10.LfX20", Ct::Arr(P::I64, 5), 9), ("l_time.g_rn_88.Pstruct_instance", Ct::Pr(P::I32), 14), ("l_time.g_ret.m_x2", Ct::Pr(P::U8), 15), ("b", Ct::Pr(P::I32), 0)], decoys: vec![("a", Ct::Arr(P::I64, 32)), ("tree.g_v.a", Ct::Arr(P::I64, 32)), ("m_a", Ct::Arr(P::I64, 32)), ("tree.g_v.m_ax", Ct::Arr(P::I64, 32)), ("x.tree.g_v.m_a", Ct::Arr(P::I64, 32)), ("zzz16", Ct::Pr(P::F32)), ("tree.b", Ct::Pr(P::F32)), ("tree.zzz16", Ct::Pr(P::F32)), ("g_b", Ct::Pr(P::F32)), ("tree.g_b", Ct::Pr(P::F32)), ("g_Lzzz16", Ct::Pr(P::F32)), ("tree.Lzzz16x", Ct::Pr(P::F32)), ("x.tree.Lzzz16", Ct::Pr(P::F32)), ("data", Ct::Sl(P::Bool)), ("tree.g_zzz4.data", Ct::Sl(P::Bool)), ("m_data", Ct::Sl(P::Bool)), ("tree.g_zzz4.m_datax", Ct::Sl(P::Bool)), ("x.tree.g_zzz4.m_data", Ct::Sl(P::Bool)), ("v", Ct::Sl(P::I8)), ("tree.g_rn_15.vx", Ct::Sl(P::I8)), ("x.tree.g_rn_15.v", Ct::Sl(P::I8)), ("dir", Ct::Sl(P::U16)), ("tree.g_rn_15.dirx", Ct::Sl(P::U16)), ("x.tree.g_rn_15.dir", Ct::Sl(P::U16)), ("struct_instancex", Ct::Pr(P::U8)), ("x.struct_instance", Ct::Pr(P::U8)), ("fn", Ct::Sl(P::U16)), ("Lv.fn", Ct::Sl(P::U16)), ("Pfn", Ct::Sl(P::U16)), ("Lv.Pfn", Ct::Sl(P::U16)), ("PZ20", Ct::Sl(P::U16)), ("Lv.Z20", Ct::Sl(P::U16)), ("Z20x", Ct::Sl(P::U16)), ("x.Z20", Ct::Sl(P::U16)), ("sender", Ct::Sl(P::I16)), ("fX0", Ct::Sl(P::I16)), ("Lv.sender", Ct::Sl(P::I16)), ("Lv.fX0", Ct::Sl(P::I16)), ("Psender", Ct::Sl(P::I16)), ("Lv.Psender", Ct::Sl(P::I16)), ("PLfX0", Ct::Sl(P::I16)), ("Lv.LfX0x", Ct::Sl(P::I16)), ("x.Lv.LfX0", Ct::Sl(P::I16)), ("pos", Ct::Sl(P::U8)), ("Lv.pos", Ct::Sl(P::U8)), ("Ppos", Ct::Sl(P::U8)), ("Lv.Pposx", Ct::Sl(P::U8)), ("x.Lv.Ppos", Ct::Sl(P::U8)), ("Lv.v", Ct::Sl(P::U64)), ("Pv", Ct::Sl(P::U64)), ("Lv.Pvx", Ct::Sl(P::U64)), ("x.Lv.Pv", Ct::Sl(P::U64)), ("type", Ct::Sl(P::U64)), ("Lv.type", Ct::Sl(P::U64)), ("Ptype", Ct::Sl(P::U64)), ("Lv.Ptypex", Ct::Sl(P::U64)), ("x.Lv.Ptype", Ct::Sl(P::U64)), ("flags", Ct::Pr(P::U16)), ("l_time.LfX23.POther.72.flags", Ct::Pr(P::U16)), ("pre.flags", Ct::Pr(P::U16)), ("l_time.LfX23.POther.72.pre.flagsx", Ct::Pr(P::U16)), ("x.l_time.LfX23.POther.72.pre.flags", Ct::Pr(P::U16)), ("xi", Ct::Pr(P::U64)), ("l_time.LfX23.POther.72.xi", Ct::Pr(P::U64)), ("pre.xi", Ct::Pr(P::U64)), ("l_time.LfX23.POther.72.pre.xix", Ct::Pr(P::U64)), ("x.l_time.LfX23.POther.72.pre.xi", Ct::Pr(P::U64)), ("x", Ct::Pr(P::U16)), ("l_time.LfX23.POther.72.x", Ct::Pr(P::U16)), ("pre.x", Ct::Pr(P::U16)), ("l_time.LfX23.POther.72.pre.xx", Ct::Pr(P::U16)), ("x.l_time.LfX23.POther.72.pre.x", Ct::Pr(P::U16)), ("energy", Ct::Arr(P::F64, 17)), ("Top.level978.energy", Ct::Arr(P::F64, 17)), ("g_energy", Ct::Arr(P::F64, 17)), ("Top.level978.g_energyx", Ct::Arr(P::F64, 17)), ("x.Top.level978.g_energy", Ct::Arr(P::F64, 17)), ("id", Ct::Pr(P::U8)), ("Top.level978.id", Ct::Pr(P::U8)), ("g_id", Ct::Pr(P::U8)), ("Top.level978.g_idx", Ct::Pr(P::U8)), ("x.Top.level978.g_id", Ct::Pr(P::U8)), ("inner", Ct::Pr(P::I64)), ("Top.level978.inner", Ct::Pr(P::I64)), ("g_inner", Ct::Pr(P::I64)), ("Top.level978.g_innerx", Ct::Pr(P::I64)), ("x.Top.level978.g_inner", Ct::Pr(P::I64)), ("l_time.LfX23.loc.x10.Pa.bx", Ct::Arr(P::U64, 7)), ("x.l_time.LfX23.loc.x10.Pa.b", Ct::Arr(P::U64, 7)), ("long_field_name_to_be_stored_as_a_column", vec_of(Ct::Pr(P::Bool))), ("l_time.LfX23.loc.x10.Pa.long_field_name_to_be_stored_as_a_columnx", vec_of(Ct::Pr(P::Bool))), ("x.l_time.LfX23.loc.x10.Pa.long_field_name_to_be_stored_as_a_column", vec_of(Ct::Pr(P::Bool))), ("next", Ct::Sl(P::F32)), ("l_time.LfX23.loc.x10.Pxi.next", Ct::Sl(P::F32)), ("pre.next", Ct::Sl(P::F32)), ("l_time.LfX23.loc.x10.Pxi.pre.nextx", Ct::Sl(P::F32)), ("x.l_time.LfX23.loc.x10.Pxi.pre.next", Ct::Sl(P::F32)), ("branch_name", Ct::Sl(P::F32)), ("l_time.LfX23.loc.x10.Pxi.branch_name", Ct::Sl(P::F32)), ("pre.branch_name", Ct::Sl(P::F32)), ("l_time.LfX23.loc.x10.Pxi.pre.branch_namex", Ct::Sl(P::F32)), ("x.l_time.LfX23.loc.x10.Pxi.pre.branch_name", Ct::Sl(P::F32)), ("Other.60", Ct::Sl(P::I32)), ("l_time.LfX23.loc.x10.Pchannel.sender", Ct::Sl(P::I32)), ("l_time.LfX23.loc.x10.Pchannel.Other.60", Ct::Sl(P::I32)), ("l_time.LfX23.loc.x10.Pchannel.Psender", Ct::Sl(P::I32)), ("POther.60", Ct::Sl(P::I32)), ("l_time.LfX23.loc.x10.Pchannel.POther.60x", Ct::Sl(P::I32)), ("x.l_time.LfX23.loc.x10.Pchannel.POther.60", Ct::Sl(P::I32)), ("field_name", Ct::Sl(P::F32)), ("l_time.LfX23.loc.x10.Pchannel.field_name", Ct::Sl(P::F32)), ("Pfield_name", Ct::Sl(P::F32)), ("l_time.LfX23.loc.x10.Pchannel.Pfield_namex", Ct::Sl(P::F32)), ("x.l_time.LfX23.loc.x10.Pchannel.Pfield_name", Ct::Sl(P::F32)), ("move", Ct::Sl(P::Bool)), ("Other.25", Ct::Sl(P::Bool)), ("l_time.LfX23.loc.x10.Pchannel.move", Ct::Sl(P::Bool)), ("l_time.LfX23.loc.x10.Pchannel.Other.25", Ct::Sl(P::Bool)), ("Pmove", Ct::Sl(P::Bool)), ("l_time.LfX23.loc.x10.Pchannel.Pmove", Ct::Sl(P::Bool)), ("POther.25", Ct::Sl(P::Bool)), ("l_time.LfX23.loc.x10.Pchannel.POther.25x", Ct::Sl(P::Bool)), ("x.l_time.LfX23.loc.x10.Pchannel.POther.25", Ct::Sl(P::Bool)), ("i", Ct::Sl(P::I32)), ("l_time.LfX23.loc.x10.Pchannel.i", Ct::Sl(P::I32)), ("Pi", Ct::Sl(P::I32)), ("l_time.LfX23.loc.x10.Pchannel.Pix", Ct::Sl(P::I32)), ("x.l_time.LfX23.loc.x10.Pchannel.Pi", Ct::Sl(P::I32)), ("fX20", Ct::Arr(P::I64, 5)), ("l_time.LfX23.loc.x10.next", Ct::Arr(P::I64, 5)), ("l_time.LfX23.loc.x10.fX20", Ct::Arr(P::I64, 5)), ("Pnext", Ct::Arr(P::I64, 5)), ("l_time.LfX23.loc.x10.Pnext", Ct::Arr(P::I64, 5)), ("PLfX20", Ct::Arr(P::I64, 5)), ("l_time.LfX23.loc.x10.LfX20x", Ct::Arr(P::I64, 5)), ("x.l_time.LfX23.loc.x10.LfX20", Ct::Arr(P::I64, 5)), ("l_time.g_rn_88.struct_instance", Ct::Pr(P::I32)), ("Pstruct_instance", Ct::Pr(P::I32)), ("l_time.g_rn_88.Pstruct_instancex", Ct::Pr(P::I32)), ("x.l_time.g_rn_88.Pstruct_instance", Ct::Pr(P::I32)), ("x2", Ct::Pr(P::U8)), ("l_time.g_ret.x2", Ct::Pr(P::U8)), ("m_x2", Ct::Pr(P::U8)), ("l_time.g_ret.m_x2x", Ct::Pr(P::U8)), ("x.l_time.g_ret.m_x2", Ct::Pr(P::U8)), ("bx", Ct::Pr(P::I32)), ("x.b", Ct::Pr(P::I32))], read: read::<m27::Deep>, read_at: read_at::<m27::Deep>, write: None },
        Shape { id: "m28::Event", depth: 4, cols: vec![("loc.Other.77.Prn_88", vec_of(Ct::Pr(P::I8)), 1), ("field_name", Ct::Pr(P::U8), 0), ("Lzzz68.inner.x", Ct::Arr(P::U16, 31), 3), ("Lzzz68.inner.next.m__u", Ct::Sl(P::I16), 4), ("Lzzz68.inner.next.m_it", Ct::Sl(P::I64), 4)], decoys: vec![("loop", vec_of(Ct::Pr(P::I8))), ("rn_88", vec_of(Ct::Pr(P::I8))), ("loc.Other.77.loop", vec_of(Ct::Pr(P::I8))), ("loc.Other.77.rn_88", vec_of(Ct::Pr(P::I8))), ("Ploop", vec_of(Ct::Pr(P::I8))), ("loc.Other.77.Ploop", vec_of(Ct::Pr(P::I8))), ("Prn_88", vec_of(Ct::Pr(P::I8))), ("loc.Other.77.Prn_88x", vec_of(Ct::Pr(P::I8))), ("x.loc.Other.77.Prn_88", vec_of(Ct::Pr(P::I8))), ("field_namex", Ct::Pr(P::U8)), ("x.field_name", Ct::Pr(P::U8)), ("x", Ct::Arr(P::U16, 31)), ("Lzzz68.inner.xx", Ct::Arr(P::U16, 31)), ("x.Lzzz68.inner.x", Ct::Arr(P::U16, 31)), ("_u", Ct::Sl(P::I16)), ("Lzzz68.inner.next._u", Ct::Sl(P::I16)), ("m__u", Ct::Sl(P::I16)), ("Lzzz68.inner.next.m__ux", Ct::Sl(P::I16)), ("x.Lzzz68.inner.next.m__u", Ct::Sl(P::I16)), ("it", Ct::Sl(P::I64)), ("Lzzz68.inner.next.it", Ct::Sl(P::I64)), ("m_it", Ct::Sl(P::I64)), ("Lzzz68.inner.next.m_itx", Ct::Sl(P::I64)), ("x.Lzzz68.inner.next.m_it", Ct::Sl(P::I64))], read: read::<m28::Event>, read_at: read_at::<m28::Event>, write: None },
        Shape { id: "m29::Channel", depth: 2, cols: vec![("Pvalue.LfX68", Ct::Sl(P::Bool), 1), ("Pz.current", Ct::Sl(P::U8), 2), ("Z74", Ct::Sl(P::U32), 2), ("Pz.energy", Ct::Sl(P::I16), 2), ("Pcurrent", vec_of(Ct::Pr(P::I8)), 0), ("Pfunc.field_name", Ct::Pr(P::I32), 3), ("Z92", Ct::Arr(P::I32, 7), 4), ("P_u.zzz33", Ct::Pr(P::U16), 4), ("P_u.rn_20", Ct::Pr(P::U8), 4)], decoys: vec![("nhits", Ct::Sl(P::Bool)), ("fX68", Ct::Sl(P::Bool)), ("Pvalue.nhits", Ct::Sl(P::Bool)), ("Pvalue.fX68", Ct::Sl(P::Bool)), ("pre.nhits", Ct::Sl(P::Bool)), ("Pvalue.pre.nhits", Ct::Sl(P::Bool)), ("pre.LfX68", Ct::Sl(P::Bool)), ("Pvalue.LfX68x", Ct::Sl(P::Bool)), ("x.Pvalue.LfX68", Ct::Sl(P::Bool)), ("current", Ct::Sl(P::U8)), ("Pz.currentx", Ct::Sl(P::U8)), ("x.Pz.current", Ct::Sl(P::U8)), ("channel", Ct::Sl(P::U32)), ("Pz.channel", Ct::Sl(P::U32)), ("Pz.Z74", Ct::Sl(P::U32)), ("Z74x", Ct::Sl(P::U32)), ("x.Z74", Ct::Sl(P::U32)), ("energy", Ct::Sl(P::I16)), ("Pz.energyx", Ct::Sl(P::I16)), ("x.Pz.energy", Ct::Sl(P::I16)), ("Pcurrentx", vec_of(Ct::Pr(P::I8))), ("x.Pcurrent", vec_of(Ct::Pr(P::I8))), ("field_name", Ct::Pr(P::I32)), ("Pfunc.field_namex", Ct::Pr(P::I32)), ("x.Pfunc.field_name", Ct::Pr(P::I32)), ("match", Ct::Arr(P::I32, 7)), ("P_u.match", Ct::Arr(P::I32, 7)), ("P_u.Z92", Ct::Arr(P::I32, 7)), ("Z92x", Ct::Arr(P::I32, 7)), ("x.Z92", Ct::Arr(P::I32, 7)), ("p", Ct::Pr(P::U16)), ("zzz33", Ct::Pr(P::U16)), ("P_u.p", Ct::Pr(P::U16)), ("P_u.zzz33x", Ct::Pr(P::U16)), ("x.P_u.zzz33", Ct::Pr(P::U16)), ("x10", Ct::Pr(P::U8)), ("rn_20", Ct::Pr(P::U8)), ("P_u.x10", Ct::Pr(P::U8)), ("P_u.rn_20x", Ct::Pr(P::U8)), ("x.P_u.rn_20", Ct::Pr(P::U8))], read: read::<m29::Channel>, read_at: read_at::<m29::Channel>, write: None },
        Shape { id: "m30::Run", depth: 2, cols: vec![("Lxi.m_channel", Ct::Sl(P::I64), 1), ("Lxi.m_zzz91", Ct::Sl(P::F64), 1), ("Lxi.m_ret", Ct::Sl(P::U8), 1), ("Lxi.m_v", Ct::Sl(P::I64), 1)], decoys: vec![("channel", Ct::Sl(P::I64)), ("Lxi.channel", Ct::Sl(P::I64)), ("m_channel", Ct::Sl(P::I64)), ("Lxi.m_channelx", Ct::Sl(P::I64)), ("x.Lxi.m_channel", Ct::Sl(P::I64)), ("z", Ct::Sl(P::F64)), ("zzz91", Ct::Sl(P::F64)), ("Lxi.z", Ct::Sl(P::F64)), ("Lxi.zzz91", Ct::Sl(P::F64)), ("m_z", Ct::Sl(P::F64)), ("Lxi.m_z", Ct::Sl(P::F64)), ("m_zzz91", Ct::Sl(P::F64)), ("Lxi.m_zzz91x", Ct::Sl(P::F64)), ("x.Lxi.m_zzz91", Ct::Sl(P::F64)), ("ret", Ct::Sl(P::U8)), ("Lxi.ret", Ct::Sl(P::U8)), ("m_ret", Ct::Sl(P::U8)), ("Lxi.m_retx", Ct::Sl(P::U8)), ("x.Lxi.m_ret", Ct::Sl(P::U8)), ("v", Ct::Sl(P::I64)), ("Lxi.v", Ct::Sl(P::I64)), ("m_v", Ct::Sl(P::I64)), ("Lxi.m_vx", Ct::Sl(P::I64)), ("x.Lxi.m_v", Ct::Sl(P::I64))], read: read::<m30::Run>, read_at: read_at::<m30::Run>, write: None },
        Shape { id: "m31::Point", depth: 2, cols: vec![("q.id", Ct::Sl(P::F64), 1), ("q.inner", Ct::Sl(P::I8), 1)], decoys: vec![("id", Ct::Sl(P::F64)), ("q.idx", Ct::Sl(P::F64)), ("x.q.id", Ct::Sl(P::F64)), ("inner", Ct::Sl(P::I8)), ("q.innerx", Ct::Sl(P::I8)), ("x.q.inner", Ct::Sl(P::I8))], read: read::<m31::Point>, read_at: read_at::<m31::Point>, write: None },
    ]
}
