mod alloc;
mod cols;
mod dam_reader;
mod p_bad;
mod p_dam;
mod p_buf;
mod core;
mod gen;
mod io;
mod obs;
mod p_derive;
mod p_struct;
mod shapes;
mod p_dir;
mod p_fault;
mod p_iter;
mod sys;
mod p_lay;
mod p_meta;
mod p_res;
mod p_round;
mod p_same;
mod p_tools;
mod p_write;
mod rng;
mod rootfmt;
mod synth;
mod val;

use crate::core::*;
use std::path::PathBuf;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

static PROPS: &[Prop] = &[
    Prop { id: "C01", level: "exploration", run: p_round::c01, quick_s: 120, thorough_s: 600, mem_mb: 0 },
    Prop { id: "C02", level: "exploration", run: p_round::c02, quick_s: 120, thorough_s: 600, mem_mb: 0 },
    Prop { id: "C03", level: "exploration", run: p_round::c03, quick_s: 120, thorough_s: 600, mem_mb: 0 },
    Prop { id: "C04", level: "exploration", run: p_dir::c04, quick_s: 150, thorough_s: 600, mem_mb: 0 },
    Prop { id: "C05", level: "exploration", run: p_struct::c05, quick_s: 150, thorough_s: 600, mem_mb: 0 },
    Prop { id: "C06", level: "exploration", run: p_struct::c06, quick_s: 150, thorough_s: 600, mem_mb: 0 },
    Prop { id: "C07", level: "exploration", run: p_lay::c07, quick_s: 150, thorough_s: 600, mem_mb: 0 },
    Prop { id: "C08", level: "exploration", run: p_lay::c08, quick_s: 150, thorough_s: 600, mem_mb: 0 },
    Prop { id: "C09", level: "exploration", run: p_lay::c09, quick_s: 150, thorough_s: 600, mem_mb: 0 },
    Prop { id: "C10", level: "exploration", run: p_derive::c10, quick_s: 150, thorough_s: 600, mem_mb: 0 },
    Prop { id: "C11", level: "exploration", run: p_write::c11, quick_s: 120, thorough_s: 600, mem_mb: 0 },
    Prop { id: "C12", level: "exploration", run: p_buf::c12, quick_s: 120, thorough_s: 600, mem_mb: 0 },
    Prop { id: "C13", level: "exploration", run: p_iter::c13, quick_s: 120, thorough_s: 600, mem_mb: 0 },
    Prop { id: "C14", level: "fault_enumeration", run: p_fault::c14, quick_s: 150, thorough_s: 600, mem_mb: 0 },
    Prop { id: "C15", level: "fault_enumeration", run: p_fault::c15, quick_s: 150, thorough_s: 600, mem_mb: 0 },
    Prop { id: "C16", level: "exploration", run: p_bad::c16, quick_s: 150, thorough_s: 600, mem_mb: 0 },
    Prop { id: "C17", level: "exploration", run: p_dam::c17, quick_s: 200, thorough_s: 600, mem_mb: 0 },
    Prop { id: "C18", level: "exploration", run: p_lay::c18, quick_s: 120, thorough_s: 600, mem_mb: 0 },
    Prop { id: "C19", level: "exploration", run: p_tools::c19, quick_s: 120, thorough_s: 600, mem_mb: 0 },
    Prop { id: "C20", level: "exploration", run: p_meta::c20, quick_s: 120, thorough_s: 600, mem_mb: 0 },
    Prop { id: "C21", level: "exploration", run: p_lay::c21, quick_s: 150, thorough_s: 600, mem_mb: 0 },
    Prop { id: "C22", level: "exploration", run: p_res::c22, quick_s: 150, thorough_s: 600, mem_mb: 0 },
];

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let verif = PathBuf::from(std::env::var("VH_VERIF").unwrap_or("/verif".into()));
    let repo = PathBuf::from(std::env::var("VH_REPO").unwrap_or("/repo".into()));
    let tier_of = |s: &str| match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => panic!("harness: tier {s}"),
    };
    let prop = |s: &str| PROPS.iter().find(|p| p.id == s).unwrap_or_else(|| panic!("harness: no property {s}"));
    if a.len() >= 6 && a[1] == "--worker" {
        let only = a.get(6).map(|s| {
            let (g, i) = s.split_once('#').expect("harness: --only group#index");
            (g.to_string(), i.parse().expect("harness: --only group#index"))
        });
        std::process::exit(worker(prop(&a[2]), tier_of(&a[3]), a[4].parse().unwrap_or(1), PathBuf::from(&a[5]), verif, repo, only));
    }
    if a.len() > 5 && a[1] == "--limited" {
        let l: Vec<u64> = a[5..].iter().map(|x| x.parse().unwrap()).collect();
        return p_fault::limited(a[2].parse().unwrap(), a[3].parse().unwrap(), &a[4], &l);
    }
    if a.len() == 7 && a[1] == "--same" {
        return p_same::serve(&a[2..]);
    }
    if a.len() == 5 && a[1] == "--read" {
        return dam_reader::serve(&a[2..]);
    }
    if a.len() == 5 && a[1] == "--writer" {
        return p_fault::writer(a[2].parse().unwrap(), a[3].parse().unwrap(), &a[4]);
    }
    if a.len() == 3 && a[1] == "--observe" {
        crate::core::install_hook();
        obs::dump(&a[2]);
        return;
    }
    if a.len() < 3 {
        eprintln!("usage: vharness <property> quick|thorough [--only group#index]");
        std::process::exit(2);
    }
    let only = if a.len() >= 5 && a[3] == "--only" { Some(a[4].clone()) } else { None };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    std::process::exit(supervise(prop(&a[1]), tier_of(&a[2]), seed, &verif, only));
}
