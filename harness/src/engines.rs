pub const ENGINES: &[Engine] = &[
    Engine { name: "arena", primary: C02, ptrs: ALLP, f: disp!(e_arena::case) },
    Engine { name: "chain", primary: C03, ptrs: ALLP, f: disp!(e_chain::case_gen) },
    Engine { name: "chain_nogen", primary: C03, ptrs: ALLP, f: disp!(e_chain::case_nogen) },
    Engine { name: "surject", primary: C04, ptrs: ALLP, f: disp!(e_surject::case) },
    Engine { name: "ord", primary: C05, ptrs: ALLP, f: disp!(e_ord::case) },
    Engine { name: "ordbal", primary: C05 | C06, ptrs: ALLP, f: disp!(e_ordbal::case) },
    Engine { name: "chaos", primary: C07, ptrs: ALLP, f: disp!(e_chaos::case) },
    Engine { name: "panics", primary: C20, ptrs: &[0, 1, 2, 4], f: disp!(e_panics::case, 0 PA, 1 PB, 2 PC, 4 PE) },
    // the index type has to be wide enough for the internal arenas of the renderer
    Engine { name: "render", primary: C21, ptrs: &[0, 4, 5], f: disp!(e_render::case, 0 PA, 4 PE, 5 PF) },
    Engine { name: "layout", primary: C09, ptrs: &[0, 1, 2], f: disp!(e_layout::case, 0 PA, 1 PB, 2 PC) },
    Engine { name: "memory", primary: C18, ptrs: &[0, 2, 4], f: disp!(e_mem::case, 0 PA, 2 PC, 4 PE) },
    // has Ptr types of its own
    Engine { name: "ptrs", primary: C25, ptrs: &[0], f: disp!(e_ptrs::case, 0 PA) },
    Engine { name: "iter", primary: C11, ptrs: &[0, 2], f: disp!(e_iter::case, 0 PA, 2 PC) },
    Engine { name: "text", primary: C26, ptrs: ALLP, f: disp!(e_text::case) },
    Engine { name: "cost", primary: C24, ptrs: &[0, 4, 5], f: disp!(e_cost::case, 0 PA, 4 PE, 5 PF) },
    // index and generation types that the sizes do not exhaust
    Engine { name: "scale", primary: C02 | C03 | C04 | C05, ptrs: &[0, 4, 5], f: disp!(e_scale::case, 0 PA, 4 PE, 5 PF) },
    #[cfg(feature = "serde")]
    Engine { name: "serde", primary: C14, ptrs: ALLP, f: disp!(e_serde::case) },
    // no 128 bit indexes
    #[cfg(feature = "serde")]
    Engine { name: "malformed", primary: C15, ptrs: &[0, 1, 2, 3, 5], f: disp!(e_serde::case_malformed, 0 PA, 1 PB, 2 PC, 3 PD, 5 PF) },
];

/// engines and weights for a property
fn plan(prop: Tags) -> Vec<(&'static str, u32)> {
    match prop {
        ALL => ENGINES.iter().filter(|e| e.name != "cost").map(|e| (e.name, match e.name { "layout" => 80, "scale" => 1, _ => 16 })).collect(),
        C02 => vec![("arena", 1)],
        C03 => vec![("chain", 1), ("chain_nogen", 1)],
        C04 => vec![("surject", 1)],
        C05 => vec![("ord", 5), ("ordbal", 1), ("serde", 1)],
        C06 => vec![("ord", 2), ("ordbal", 2), ("chaos", 1), ("serde", 1)],
        C07 => vec![("chaos", 1)],
        C11 => vec![("arena", 1), ("chain", 1), ("chain_nogen", 1), ("surject", 1), ("ord", 1), ("chaos", 1), ("iter", 1)],
        C14 => vec![("serde", 1)],
        C15 => vec![("malformed", 1)],
        C20 => vec![("panics", 1)],
        C09 => vec![("layout", 100), ("arena", 1), ("chain", 1), ("chain_nogen", 1), ("surject", 1), ("ord", 1), ("chaos", 1), ("panics", 1), ("serde", 1), ("malformed", 1)],
        C18 => vec![("arena", 2), ("chain", 2), ("chain_nogen", 2), ("surject", 2), ("ord", 2), ("chaos", 2), ("memory", 1)],
        C24 => vec![("cost", 1)],
        C25 => vec![("ptrs", 1)],
        C26 => vec![("text", 1)],
        C21 | C22 => vec![("render", 1)],
        C08 => vec![("arena", 2), ("chain", 2), ("chain_nogen", 2), ("surject", 2), ("ord", 2), ("chaos", 1), ("panics", 1), ("serde", 1), ("malformed", 1), ("layout", 1)],
        _ => vec![("arena", 1), ("chain", 1), ("chain_nogen", 1), ("surject", 1), ("ord", 1), ("chaos", 1)],
    }
}
