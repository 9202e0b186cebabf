#!/usr/bin/env python3
"""Mutation campaign, for developing the checks (no check uses it).

campaign.py list SEED COUNT            print mutants
campaign.py run SEED COUNT OUT [JOBS]  run them in scratch copies under /tmp/mut
campaign.py patches OUT FILE...        run given patch files the same way
"""
import os, random, re, subprocess, sys, json, shutil
from concurrent.futures import ThreadPoolExecutor
import queue
REPO, VERIF, TMP = "/repo", "/verif", os.environ.get("MUT_TMP", "/tmp/mut")
GROUP = {}
for p, names in {
 9: "power_management_interface message_signaled_interrups msi_x",
 10: "accelerated_graphics_port vital_product_data slot_identification vendor_specific debug_port bridge_subsystem_vendor_id sata advanced_features flattening_portal_bridge",
 11: "pci_x hypertransport", 12: "pci_express", 13: "enhanced_allocation",
 14: "advanced_error_reporting downstream_port_containment",
 15: "latency_tolerance_reporting l1_pm_substates precision_time_measurement dynamic_power_allocation power_budgeting secondary_pci_express pci_express_over_m_phy readiness_time_reporting frs_queuing protocol_multiplexing",
 16: "single_root_io_virtualization address_translation_services page_request_interface process_address_space_id alternative_routing_id_interpolation access_control_services tph_requester ln_requester multicast resizable_bar",
 17: "virtual_channel multifunction_virtual_channel",
 18: "root_complex_link_declaration root_complex_internal_link_control root_complex_event_collector_endpoint_association root_complex_register_block_header device_serial_number configuration_access_correlation vendor_specific_extended_capability",
 19: "designated_vendor_specific_extended_capability"}.items():
    for n in names.split():
        GROUP[n] = p
def order(path):
    stem = os.path.basename(path)[:-3]
    first = [GROUP[stem]] if stem in GROUP else []
    if "designated_vendor" in path: first = [19]
    if path.endswith("class_code.rs"): first = [8]
    if path.endswith("bar.rs"): first = [6, 22]
    if "src/header" in path: first += [5, 6, 7, 22]
    if path.endswith("src/capabilities.rs"): first = [3]
    if path.endswith("src/extended_capabilities.rs"): first = [4]
    rest = [20, 26, 25, 22, 24, 21, 2, 3, 4, 23, 5, 6, 7, 8] + list(range(9, 20)) + [1]
    seen, out = set(), []
    for p in first + rest:
        if p not in seen:
            seen.add(p); out.append(p)
    return out
def sources():
    out = []
    for d, _, fs in os.walk(REPO + "/src"):
        out += [os.path.join(d, f) for f in fs if f.endswith(".rs")]
    return sorted(out)
def code_lines(text):
    lines = text.split("\n")
    end = len(lines)
    for i, l in enumerate(lines):
        if re.match(r"\s*#\[cfg\(test\)\]", l):
            end = i; break
    inblock = False
    out = []
    for i, l in enumerate(lines[:end]):
        s = l.strip()
        if s.startswith("/*"): inblock = True
        if not inblock and s and not s.startswith(("//", "#", "use ", "pub use", "pub mod", "mod ")):
            out.append(i)
        if "*/" in s: inblock = False
    return lines, out
def strip_comment(l):
    return l.split("//")[0]
def mutants_of(path, rng):
    text = open(path).read()
    lines, idx = code_lines(text)
    out = []
    def emit(i, new, why, j=None, newj=None):
        n = list(lines); n[i] = new
        if j is not None: n[j] = newj
        out.append((path, i + 1, why, "\n".join(n)))
    for i in idx:
        l = strip_comment(lines[i])
        if re.match(r"\s*size: \d+,", l): continue
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d+)(?![\w.])", l):
            t = m.group(1)
            v = int(t.replace("_", ""), 0)
            for w in {v + 1, v - 1, v * 2, v // 2}:
                if w >= 0 and w != v:
                    s = hex(w) if t.startswith("0x") else bin(w) if t.startswith("0b") else str(w)
                    emit(i, lines[i][:m.start()] + s + lines[i][m.end():], f"{t} -> {s}")
        for a, b in [("<<", ">>"), (" >> ", " << "), (" | ", " & "), (" & ", " | "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), (" + ", " - "), (" - ", " + "), (" * ", " + "), ("true", "false"), ("false", "true"), ("then_some", "then_some"), ("..=", ".."), ("!0b11", "!0b01"), (".checked_sub", ".checked_add"), ("wrapping_sub", "wrapping_add"), ("None", "Default::default()")]:
            k = l.find(a)
            if k >= 0 and a != b and not ("||" in a and "|_|" in l):
                emit(i, lines[i][:k] + b + lines[i][k + len(a):], f"{a.strip()} -> {b.strip()}")
    # swap neighbouring names in a destructuring or struct literal (only all-lowercase single names)
    for i in idx:
        if i + 1 in idx:
            a, b = lines[i].strip(), lines[i + 1].strip()
            k = i
            while k > 0 and re.fullmatch(r"[a-z_][a-z0-9_]*,", lines[k].strip()): k -= 1
            if lines[k].rstrip().endswith(("((", "[")) and re.fullmatch(r"[a-z_][a-z0-9_]*,", a) and re.fullmatch(r"[a-z_][a-z0-9_]*,", b) and a != b:
                ind = re.match(r"\s*", lines[i]).group()
                emit(i, ind + b, f"swap {a} {b}", i + 1, ind + a)
            ma, mb = re.fullmatch(r"\s*(.+?) => (.+),", lines[i]), re.fullmatch(r"\s*(.+?) => (.+),", lines[i + 1])
            if ma and mb and ma.group(2) != mb.group(2):
                ind = re.match(r"\s*", lines[i]).group()
                emit(i, f"{ind}{ma.group(1)} => {mb.group(2)},", "swap arms", i + 1, f"{ind}{mb.group(1)} => {ma.group(2)},")
            mf = re.fullmatch(r"(\s*)([a-z_0-9]+): (.+),", lines[i]); mg = re.fullmatch(r"(\s*)([a-z_0-9]+): (.+),", lines[i + 1])
            if mf and mg and "pub" not in lines[i]:
                emit(i, f"{mf.group(1)}{mf.group(2)}: {mg.group(3)},", "swap field values", i + 1, f"{mg.group(1)}{mg.group(2)}: {mf.group(3)},")
        # P-generics: move a bit between neighbours
        for m in re.finditer(r"P\d+::?<_, ([0-9, ]+)>", lines[i]):
            ws = [int(x) for x in m.group(1).split(",")]
            for k in range(len(ws) - 1):
                for d in (1, -1):
                    w = list(ws); w[k] += d; w[k + 1] -= d
                    if min(w) > 0:
                        s = ", ".join(map(str, w))
                        emit(i, lines[i][:m.start(1)] + s + lines[i][m.end(1):], f"widths {m.group(1)} -> {s}")
                if ws[k] != ws[k + 1]:
                    w = list(ws); w[k], w[k + 1] = w[k + 1], w[k]
                    s = ", ".join(map(str, w))
                    emit(i, lines[i][:m.start(1)] + s + lines[i][m.end(1):], f"widths {m.group(1)} -> {s}")
    return out
def workers(n):
    ws = []
    for k in range(n):
        w = f"{TMP}/w{k}"
        if not os.path.isdir(w + "/repo"):
            os.makedirs(w, exist_ok=True)
            subprocess.run(["cp", "-a", REPO, w + "/repo"], check=True)
        subprocess.run(["git", "-C", w + "/repo", "checkout", "-q", "--", "."], check=True)
        subprocess.run(["git", "-C", w + "/repo", "pull", "-q", REPO, "HEAD"], check=False)
        os.makedirs(w + "/monitor", exist_ok=True)
        subprocess.run(f"rm -rf {w}/monitor/src && cp -a {VERIF}/monitor/src {VERIF}/monitor/Cargo.toml {VERIF}/monitor/Cargo.lock {VERIF}/monitor/literals.txt {w}/monitor/ && sed -i 's#\"/repo\"#\"{w}/repo\"#' {w}/monitor/Cargo.toml", shell=True, check=True)
        ws.append(w)
    return ws
def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    e.update(CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"
def judge(w, path, everything=False, threads="2"):
    rc, o = sh("cargo build --offline -q", w + "/repo")
    if rc: return "nobuild", ""
    rc, o = sh("cargo test --workspace --offline -q", w + "/repo", timeout=400)
    if rc: return "killed-by-tests", ""
    rc, o = sh("cargo build --offline -q", w + "/monitor")
    if rc: return "monitor-nobuild", o[-600:]
    hits, what = [], ""
    for p in order(path) if path else range(1, 27):
        rc, o = sh(f"target/debug/pcimon run C{p:02} quick", w + "/monitor", {"VERIF_DIR": w, "VERIF_THREADS": threads, "VERIF_REPO": w + "/repo"})
        if rc == 1 or rc >= 128:
            hits.append(p); what = what or o[-400:]
            if not everything: break
        elif rc != 0:
            hits.append(-p); what = what or o[-400:]
    return ("caught " + ",".join(map(str, hits)) if hits else "SURVIVED"), what
def main():
    mode = sys.argv[1]
    if mode in ("list", "run"):
        seed, count = int(sys.argv[2]), int(sys.argv[3])
        rng = random.Random(seed)
        only = os.environ.get("ONLY")
        allm = [m for f in sources() if not only or re.search(only, f) for m in mutants_of(f, rng)]
        # even over files, then lines
        byf = {}
        for m in allm: byf.setdefault(m[0], []).append(m)
        for v in byf.values(): rng.shuffle(v)
        pick = []
        fs = list(byf)
        while len(pick) < count and any(byf.values()):
            rng.shuffle(fs)
            for f in fs:
                if byf[f]: pick.append(byf[f].pop())
        pick = pick[:count]
        if mode == "list":
            print(len(allm))
            for m in pick: print(m[0], m[1], m[2])
            return
        jobs = int(sys.argv[5]) if len(sys.argv) > 5 else 4
        out = open(sys.argv[4], "a")
        q = queue.Queue()
        for w in workers(jobs): q.put(w)
        def one(m):
            w = q.get()
            try:
                rel = os.path.relpath(m[0], REPO)
                open(f"{w}/repo/{rel}", "w").write(m[3])
                r, what = judge(w, m[0])
                diff = subprocess.run(["git", "-C", w + "/repo", "diff", "-U0"], capture_output=True, text=True).stdout if r.startswith(("SURV", "monitor", "caught -")) else ""
                subprocess.run(["git", "-C", w + "/repo", "checkout", "-q", "--", "."])
                out.write(json.dumps(dict(file=rel, line=m[1], why=m[2], result=r, what=what, diff=diff)) + "\n"); out.flush()
            finally:
                q.put(w)
        with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, pick))
    elif mode == "patches":
        q = queue.Queue()
        for w in workers(4): q.put(w)
        def one(f):
            w = q.get()
            try:
                rc, o = sh(f"git apply {f}", w + "/repo")
                if rc: print(f, "does not apply", o); return
                r, what = judge(w, None, everything=True)
                subprocess.run(["git", "-C", w + "/repo", "checkout", "-q", "--", "."])
                print(f, r, what.replace("\n", " ")[:300] if "-v" in os.environ.get("FLAGS", "") else "", flush=True)
            finally:
                q.put(w)
        with ThreadPoolExecutor(4) as ex: list(ex.map(one, sys.argv[2:]))
main()
