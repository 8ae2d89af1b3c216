//! Verdict and evidence.
use crate::base::*;
use std::io::Write as _;

/// Write the evidence and the replay file, print the verdict. Returns the exit code.
pub fn finish(cx: &Ctx, out: &str, replays: &str) -> i32 {
    use std::sync::atomic::Ordering::Relaxed;
    let viol = cx.viol.lock().unwrap();
    let wall = cx.start.elapsed().as_secs_f64();
    let mut paths = vec![];
    let _ = std::fs::create_dir_all(replays);
    if !viol.is_empty() {
        let p = format!("{replays}/{}.txt", cx.property);
        let mut s = format!(
            "property {}\n{} violations; re-run: bash /verif/check.sh {} {}\n",
            cx.property,
            cx.nv(),
            cx.property,
            if cx.thorough { "thorough" } else { "quick" }
        );
        for (k, t) in viol.iter() {
            s.push_str(&format!("[{k}]\n    {t}\n"));
        }
        let _ = std::fs::write(&p, s);
        paths.push(p);
    }
    let list = |v: &[String]| v.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(", ");
    let js = format!(
        "{{\"property\": \"{}\", \"tier\": \"{}\", \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"undecided\": {}, \"exhaustive\": true,\n  \"samples\": [{}]}},\n \"assumptions\": [{}],\n \"violations\": {},\n \"wall_s\": {:.3}}}\n",
        cx.property,
        if cx.thorough { "thorough" } else { "quick" },
        cx.seed,
        cx.states.load(Relaxed),
        cx.transitions.load(Relaxed),
        cx.validated.load(Relaxed),
        cx.skipped.load(Relaxed),
        list(&cx.samples.lock().unwrap()),
        list(&cx.notes.lock().unwrap()),
        cx.nv(),
        wall
    );
    if !out.is_empty() {
        if let Some(d) = std::path::Path::new(out).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        if let Err(e) = std::fs::write(out, js) {
            println!("cannot write {out}: {e}");
            return 2;
        }
    }
    for (k, n) in cx.known_hit.lock().unwrap().iter() {
        let t = cx.known.iter().find(|x| x.0 == *k).map(|x| x.1.as_str()).unwrap_or("");
        println!("KNOWN-FINDING: property={} {k} {t} ({n} cases)", cx.property);
    }
    println!(
        "{}: {} states, {} transitions, {} compared, {} undecided, {:.1} s",
        cx.property,
        cx.states.load(Relaxed),
        cx.transitions.load(Relaxed),
        cx.validated.load(Relaxed),
        cx.skipped.load(Relaxed),
        wall
    );
    for (_, t) in viol.iter().take(5) {
        println!("  {t}");
    }
    for p in &paths {
        println!("VIOLATION property={} replay={p}", cx.property);
    }
    let _ = std::io::stdout().flush();
    if paths.is_empty() {
        0
    } else {
        1
    }
}

