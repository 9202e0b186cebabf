//! One entry per property: which workloads feed the monitors.
use crate::engine::*;
use crate::gen::*;
use crate::judge;
use crate::work::*;

/// Structures that must have been seen decoding and failing, or the run observed too little.
#[derive(Default)]
pub struct Needs {
    pub ok: Vec<u32>,
    pub err: Vec<u32>,
    pub min_events: u64,
    pub counts: Vec<&'static str>,
}

fn dose(run: &Run) -> Dose {
    run.pick(
        Dose { bit_bgs: 24, byte_bgs: 16, word_bgs: 6, dict_bgs: 8, trunc: 100, random: 2_500_000 },
        Dose { bit_bgs: 100, byte_bgs: 60, word_bgs: 60, dict_bgs: 60, trunc: 1000, random: 40_000_000 },
    )
}

const GROUPS: [(u32, &[u8], &[u16]); 11] = [
    (9, &[0x01, 0x05, 0x11], &[]),
    (10, &[0x02, 0x03, 0x04, 0x09, 0x0a, 0x0d, 0x12, 0x13, 0x15], &[]),
    (11, &[0x07, 0x08], &[]),
    (12, &[0x10], &[]),
    (13, &[0x14], &[]),
    (14, &[], &[0x01, 0x1d]),
    (15, &[], &[0x18, 0x1e, 0x1f, 0x16, 0x04, 0x19, 0x20, 0x22, 0x21, 0x1a]),
    (16, &[], &[0x10, 0x0f, 0x13, 0x1b, 0x0e, 0x0d, 0x17, 0x1c, 0x12, 0x15, 0x24]),
    (17, &[], &[0x02, 0x08, 0x09]),
    (18, &[], &[0x05, 0x06, 0x07, 0x0a, 0x03, 0x0c, 0x0b]),
    (19, &[], &[0x23]),
];

/// Structures whose decoding can fail for lack of bytes (all that carry registers).
fn fallible_ext() -> Vec<u32> {
    EXT_IDS.iter().map(|&i| 0x100 + i as u32).collect()
}
fn all_conv() -> Vec<u32> {
    CONV_IDS.iter().map(|&i| i as u32).collect()
}

pub fn run(run: &mut Run) -> Needs {
    let d = dose(run);
    let mut needs = Needs { min_events: 10_000, ..Default::default() };
    if let Some((_, conv, ext)) = GROUPS.iter().find(|g| g.0 == run.prop) {
        let t = Target::of(conv, ext);
        needs.ok = conv.iter().map(|&i| i as u32).chain(ext.iter().map(|&i| 0x100 + i as u32)).collect();
        needs.err = needs.ok.clone();
        // the fewer structures, the more of each
        let more = (12 / t.len()).clamp(1, 4);
        match run.prop {
            15 => crate::extra::lane_equalization(run),
            17 => crate::extra::arbitration_entries(run),
            18 => crate::extra::rcld_serial(run),
            10 => crate::extra::virtio_devices(run),
            _ => (),
        }
        if matches!(run.prop, 13 | 15..=18) {
            crate::extra::constructed(run);
        }
        real_dumps(run);
        // the small workloads come first: a slow machine ends the large ones early
        patterns(run, &t, Dose { random: d.random * more, ..d });
        return needs;
    }
    match run.prop {
        1 => {
            let small = run.pick(
                Dose { bit_bgs: 3, byte_bgs: 3, word_bgs: 0, dict_bgs: 1, trunc: 16, random: 20_000 },
                Dose { bit_bgs: 12, byte_bgs: 12, word_bgs: 2, dict_bgs: 4, trunc: 100, random: 400_000 },
            );
            let mut t = Target::of(&CONV_IDS, &EXT_IDS);
            t.extend((0..4).map(Target::Head));
            real_dumps(run);
            crate::extra::direct(run);
            crate::encode::all(run);
            crate::extra::meanings(run, run.pick(61, 1));
            patterns(run, &t, small);
            crate::extra::garbage(run);
            // wide sweeps for panics while decoding; formatting goes along now and then
            run.fmt_every = 17;
            patterns(run, &t, Dose { bit_bgs: 0, byte_bgs: run.pick(4, 24), word_bgs: run.pick(1, 12), dict_bgs: run.pick(3, 24), trunc: run.pick(60, 600), random: run.pick(200_000, 6_000_000) });
            run.fmt_every = 1;
            let n = run.pick(60_000, 1_500_000);
            conv_chains(run, n);
            let n = run.pick(15_000, 400_000);
            ext_chains(run, n);
            conv_links(run);
            needs.ok = all_conv().into_iter().chain(fallible_ext()).collect();
            needs.err = needs.ok.clone();
            needs.counts = vec!["formatted_bytes", "garbage_regions", "direct_decodes"];
        }
        2 => {
            crate::extra::bar_bound(run);
            crate::extra::constructed(run);
            crate::extra::revisit(run);
            let n = run.pick(90, 1500);
            longest(run, n);
            conv_links(run);
            ext_links(run);
            let n = run.pick(1_500_000, 10_000_000);
            conv_chains(run, n);
            let n = run.pick(160_000, 2_000_000);
            ext_chains(run, n);
            let t = Target::of(&[0x14], &[0x02, 0x05, 0x08, 0x09, 0x0d, 0x15, 0x16, 0x19, 0x1a, 0x24]);
            let dd = Dose { word_bgs: 0, random: d.random / 3, ..d };
            patterns(run, &t, dd);
            needs.counts = vec!["longest_lists", "longest_ext_lists", "revisit_walks", "constructed_lists"];
        }
        3 => {
            crate::extra::start_pointers(run);
            real_dumps(run);
            let n = run.pick(60, 600);
            longest(run, n);
            conv_links(run);
            let n = run.pick(16_000_000, 100_000_000);
            conv_chains(run, n);
            needs.ok = all_conv();
            needs.counts = vec!["lists_16_up", "lists_4_to_15", "lists_empty", "link_values"];
        }
        4 => {
            crate::extra::ext_headers(run);
            real_dumps(run);
            let n = run.pick(60, 600);
            longest(run, n);
            ext_links(run);
            let n = run.pick(3_000_000, 20_000_000);
            ext_chains(run, n);
            needs.ok = fallible_ext();
            needs.counts = vec!["ext_lists_32_up", "ext_lists_4_to_31", "ext_link_values", "ext_header_registers"];
        }
        5 | 6 | 7 => {
            let t: Vec<Target> = [0u8, 1, 2, 3, 0x10, 0x7f].iter().map(|&t| Target::Head(t)).collect();
            real_dumps(run);
            if run.prop == 5 {
                crate::extra::header_lengths(run);
                crate::extra::cardbus(run);
            }
            if run.prop == 6 {
                crate::extra::bar_grid(run);
                patterns(run, &[Target::Ext(0x10)], Dose { word_bgs: 1, ..d });
            }
            if run.prop == 7 {
                crate::extra::window_grid(run);
            }
            patterns(run, &t, d);
            needs.ok = vec![0x200, 0x201, 0x202, 0x203];
        }
        8 => {
            crate::extra::meanings(run, 1);
            crate::extra::class_fields(run);
            needs.counts = vec!["class_codes", "named_class_codes"];
        }
        20 => {
            crate::extra::rcld_serial(run);
            crate::extra::header_lengths(run);
            crate::extra::cardbus(run);
            crate::extra::direct(run);
            let t = Target::of(&CONV_IDS, &EXT_IDS);
            let n = run.pick(400, 8000);
            patterns(
                run,
                &t,
                Dose { bit_bgs: 0, byte_bgs: 0, word_bgs: 0, dict_bgs: 0, trunc: n, random: d.random / 5 },
            );
            needs.ok = all_conv().into_iter().chain(fallible_ext()).collect();
            needs.err = needs.ok.clone();
            needs.counts = vec!["cut_series", "header_lengths"];
        }
        21 => {
            crate::extra::locality(run);
            needs.counts = vec!["moved_structures", "added_tails"];
        }
        22 => {
            crate::encode::all(run);
            patterns(
                run,
                &Target::of(&[0x08], &[]),
                Dose { bit_bgs: 4, byte_bgs: 4, word_bgs: 1, dict_bgs: 0, trunc: 4, random: 20_000 },
            );
            let t: Vec<Target> = (0..4).map(Target::Head).collect();
            patterns(run, &t, Dose { bit_bgs: 2, byte_bgs: 2, word_bgs: 0, dict_bgs: 1, trunc: 0, random: 20_000 });
            crate::extra::bar_grid(run);
            needs.counts = vec!["encodings"];
        }
        23 => {
            crate::purity::all(run);
            needs.counts = vec!["repeated_decodes", "threaded_decodes", "clone_points", "allocations_watched", "reused_buffers", "alternations"];
        }
        24 => {
            crate::extra::error_texts(run);
            crate::extra::rcld_serial(run);
            crate::extra::failing_chains(run);
            let t = Target::of(&CONV_IDS, &EXT_IDS);
            let n = run.pick(60, 1500);
            patterns(
                run,
                &t,
                Dose { bit_bgs: 1, byte_bgs: 1, word_bgs: 0, dict_bgs: 0, trunc: n, random: d.random / 6 },
            );
            conv_links(run);
            ext_links(run);
            needs.err = all_conv().into_iter().chain(fallible_ext()).collect();
            needs.counts = vec!["failures_before_others", "ext_failures_before_others", "error_texts"];
        }
        25 => {
            crate::extra::cardbus(run);
            crate::extra::derived_tables(run);
            let t = Target::of(&[0x01, 0x05, 0x07, 0x08, 0x10, 0x12], &[0x02, 0x04, 0x08, 0x09, 0x15, 0x18, 0x1d, 0x1e, 0x22, 0x24]);
            patterns(run, &t, Dose { word_bgs: run.pick(1, 4), random: d.random / 2, ..d });
            let t: Vec<Target> = (0..4).map(Target::Head).collect();
            patterns(run, &t, Dose { bit_bgs: 4, byte_bgs: 4, word_bgs: 0, dict_bgs: 1, trunc: 0, random: 50_000 });
            needs.ok = vec![0x01, 0x05, 0x07, 0x08, 0x10, 0x12, 0x102, 0x104, 0x118, 0x11d, 0x11e, 0x122, 0x115];
            needs.counts = vec!["derived_tables"];
        }
        26 => {
            crate::equality::all(run);
            needs.counts = vec!["equal_pairs", "unequal_pairs", "small_tables", "walk_states"];
        }
        _ => unreachable!(),
    }
    needs
}

/// A short course through every structure and both lists, for slow interpreters.
pub fn small(run: &mut Run) -> Needs {
    let seed = run.seed;
    let mut t = Target::of(&CONV_IDS, &EXT_IDS);
    t.extend((0..4).map(Target::Head));
    let (t, rounds) = (&t, 1);
    run.tasks(t.len() * rounds, |i, out| {
        let mut r = Rng::new(seed, 1_400_000 + i as u64, 1);
        let k = t[i % t.len()];
        let n = match k {
            Target::Conv(id, _) => conv_body_len(&mut r, id),
            Target::Ext(id) => ext_body_len(&mut r, id),
            Target::Head(_) => 64,
        };
        let mut f = k.fix(&mut r, 4, if i < t.len() { None } else { Some(n) });
        f.run(out);
        out.sample(|| format!("{k:?}: {}", hex(&f.data[f.off..(f.off + 16).min(f.data.len())])));
    });
    crate::purity::small(run, 3);
    Needs { min_events: 100, ..Default::default() }
}

pub fn replay(prop: u32, kind: &str, a: &[u8], b: &[u8]) -> Option<Violation> {
    let mut out = Out::detached(c(prop));
    let mut hb = [0; 64];
    match kind {
        "conv" if b.len() == 64 => {
            hb.copy_from_slice(b);
            conv_case(&mut out, a, &hb);
        }
        "ext" => ext_case(&mut out, a),
        "header" if a.len() == 64 => {
            hb.copy_from_slice(a);
            header_case(&mut out, &hb);
        }
        _ => {
            let _ = judge::dbg_hash(&a);
            return None;
        }
    }
    out.violation
}
