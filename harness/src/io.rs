//! Writing and reading columns through the public API of oxyroot.
use crate::cols::*;
use crate::{with_n, with_prim};
use oxyroot::{Branch, ReaderTree, RootFile, WriterTree};
use std::path::Path;

pub fn add_branch(tree: &mut WriterTree, col: &Col) {
    let cells = col.cells.clone();
    add_branch_it(tree, &col.name, col.ty, cells.into_iter())
}

fn nums(c: Cell) -> Vec<u64> {
    match c {
        Cell::N(v) => v,
        Cell::S(_) => panic!("harness: string cell in numeric column"),
    }
}

pub fn add_branch_it(
    tree: &mut WriterTree,
    name: &str,
    ty: Ty,
    it: impl Iterator<Item = Cell> + 'static,
) {
    match ty {
        Ty::Scalar(p) => with_prim!(p, T => tree.new_branch(name, it.map(|c| <T as Elt>::from_bits(nums(c)[0])))),
        Ty::Arr(p, n) => with_prim!(p, T => with_n!(n, N => tree.new_branch(name, it.map(|c| {
            let v = nums(c);
            let mut a: [T; N] = [T::default(); N];
            for i in 0..N { a[i] = <T as Elt>::from_bits(v[i]); }
            a
        })))),
        Ty::Vec(p) => with_prim!(p, T => tree.new_branch(name, it.map(|c| {
            nums(c).into_iter().map(|b| <T as Elt>::from_bits(b)).collect::<Vec<T>>()
        }))),
        Ty::Str => tree.new_branch(
            name,
            it.map(|c| match c {
                Cell::S(s) => s,
                Cell::N(_) => panic!("harness: numeric cell in string column"),
            }),
        ),
    }
}

/// Typed iterator over a branch, canonicalised; Err when the reader refuses the type.
pub fn read_iter<'a>(
    b: &'a Branch,
    ty: Ty,
) -> Result<Box<dyn Iterator<Item = Cell> + 'a>, String> {
    Ok(match ty {
        Ty::Scalar(p) => with_prim!(p, T => Box::new(b.as_iter::<T>().map_err(|e| e.to_string())?.map(|v| Cell::N(vec![v.bits()])))),
        Ty::Arr(p, n) => with_prim!(p, T => with_n!(n, N => Box::new(
            b.as_iter::<[T; N]>().map_err(|e| e.to_string())?.map(|v| Cell::N(v.iter().map(|e| e.bits()).collect()))))),
        Ty::Vec(p) => with_prim!(p, T => Box::new(
            b.as_iter::<Vec<T>>().map_err(|e| e.to_string())?.map(|v| Cell::N(v.iter().map(|e| e.bits()).collect())))),
        Ty::Str => Box::new(b.as_iter::<String>().map_err(|e| e.to_string())?.map(Cell::S)),
    })
}

pub fn read_all(b: &Branch, ty: Ty) -> Result<Vec<Cell>, String> {
    Ok(read_iter(b, ty)?.collect())
}

pub fn write_file(path: &Path, trees: &[(String, Vec<Col>)]) -> Result<(), String> {
    let mut f = RootFile::create(path).map_err(|e| format!("create: {e}"))?;
    for (name, cols) in trees {
        let mut t = WriterTree::new(name);
        for c in cols {
            add_branch(&mut t, c);
        }
        t.write(&mut f).map_err(|e| format!("write: {e}"))?;
    }
    f.close().map_err(|e| format!("close: {e}"))?;
    Ok(())
}

pub fn open_tree(path: &Path, name: &str) -> Result<(RootFile, ReaderTree), String> {
    let mut f = RootFile::open(path).map_err(|e| format!("open: {e}"))?;
    let t = f.get_tree(name).map_err(|e| format!("get_tree: {e}"))?;
    Ok((f, t))
}
