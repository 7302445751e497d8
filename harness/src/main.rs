//! vh: runs the executable reading of a property next to the real amxml crate.
//!   vh run PROP --tier quick|thorough --seed N --budget SECS --out FILE.json
//!   vh xpath XML EXPR          (replay helper: prints what the real crate answers)
mod core;
mod xmlchars;
mod rxml;
mod p_sax;
mod p_dom;
mod rx;
mod gx;
mod p_xp;

use crate::core::*;
use std::io::Read;
use std::os::unix::fs::FileExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn dispatch(p: &str, c: &mut Ctx) -> bool {
    match p {
        "C01" => p_sax::c01(c), "C02" => p_sax::c02(c), "C03" => p_sax::c03(c), "C04" => p_sax::c04(c),
        "C05" => p_dom::c05(c), "C06" => p_dom::c06(c), "C07" => p_dom::c07(c), "C08" => p_dom::c08(c),
        "C09" => p_dom::c09(c), "C10" => p_dom::c10(c),
        "C11" => p_xp::c11(c),
        "C12" => p_xp::c12(c),
        "C13" => p_xp::c13(c),
        "C14" => p_xp::c14(c),
        "C15" => p_xp::c15(c),
        "C16" => p_xp::c16(c),
        "C17" => p_xp::c17(c),
        "C18" => p_xp::c18(c),
        "C19" => p_xp::c19(c),
        "C20" => p_xp::c20(c),
        "C21" => p_xp::c21(c),
        "C22" => p_xp::c22(c),
        "C23" => p_xp::c23(c),
        "C24" => p_xp::c24(c),
        "C25" => p_xp::c25(c),
        "C26" => p_xp::c26(c),
        "C27" => p_xp::c27(c),
        "C28" => p_xp::c28(c),
        _ => return false,
    }
    true
}

fn arg(args: &[String], k: &str, d: &str) -> String {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()).unwrap_or(d.to_string())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "run" => parent(&args),
        "child" => child(&args),
        "xpath" => {
            let doc = match amxml::dom::new_document(&args[2]) { Ok(d) => d, Err(e) => { println!("XML error: {}", e); return; } };
            match doc.eval_xpath(&args[3]) { Ok(s) => println!("value: {}", s.to_string()), Err(e) => println!("error: {}", e) }
        }
        _ => { eprintln!("usage"); std::process::exit(2); }
    }
}

fn child(args: &[String]) {
    let prop = &args[2];
    let seed: u64 = arg(args, "--seed", "1").parse().unwrap_or(1);
    let thorough = arg(args, "--tier", "quick") == "thorough";
    let budget: u64 = arg(args, "--budget", "20").parse().unwrap_or(20);
    let state = std::fs::OpenOptions::new().write(true).open(arg(args, "--state", "")).unwrap();
    let out = arg(args, "--out", "");
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Ctx::new(seed, thorough, budget, state);
    // a generous stack: the properties exclude exhaustion by deep nesting
    let prop2 = prop.clone();
    let th = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
        let ok = dispatch(&prop2, &mut c);
        (ok, c)
    }).unwrap();
    let (ok, c) = match th.join() { Ok(x) => x, Err(_) => { eprintln!("harness panicked"); std::process::exit(3); } };
    if !ok { eprintln!("unknown property {}", prop); std::process::exit(2); }
    let mut o = String::from("{");
    o += &format!("\"property\":{},\"evaluations\":{},\"distinct\":{},\"elapsed\":{:.2},", js(prop), c.evals, c.distinct(), c.elapsed());
    o += &format!("\"samples\":[{}],", c.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    o += &format!("\"notes\":[{}],", c.exhaustive_notes.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    let mut parts = vec![];
    for i in 0..c.parts.len() {
        let end = if i + 1 < c.parts.len() { c.parts[i + 1].1 } else { c.evals };
        parts.push(format!("{}:{}", js(&c.parts[i].0), end - c.parts[i].1));
    }
    o += &format!("\"parts\":{{{}}},", parts.join(","));
    o += &format!("\"violations\":[{}]}}", c.violations.iter().map(|v| format!("{{\"input\":{},\"detail\":{}}}", js(&v.input), js(&v.detail))).collect::<Vec<_>>().join(","));
    std::fs::write(out, o).unwrap();
}

fn parent(args: &[String]) {
    let out = arg(args, "--out", "/dev/stdout");
    let statef = format!("{}.state", out);
    let tmpout = format!("{}.child", out);
    let _ = std::fs::remove_file(&tmpout);
    std::fs::write(&statef, vec![0u8; 16]).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut a: Vec<String> = args[2..].to_vec();
    a.push("--state".into()); a.push(statef.clone());
    // the last --out wins nothing: replace it
    if let Some(i) = a.iter().position(|x| x == "--out") { a[i + 1] = tmpout.clone(); } else { a.push("--out".into()); a.push(tmpout.clone()); }
    let mut sh = Command::new("/bin/sh");
    sh.arg("-c").arg("ulimit -v 12000000; ulimit -c 0; exec \"$0\" \"$@\"").arg(exe).arg("child").args(&a)
        .stdout(Stdio::null()).stderr(Stdio::piped());
    let mut ch = sh.spawn().unwrap();
    let sf = std::fs::File::open(&statef).unwrap();
    let mut last = 0u64; let mut since = Instant::now();
    let read = || -> (u64, String) {
        let mut h = [0u8; 16];
        if sf.read_at(&mut h, 0).unwrap_or(0) < 16 { return (0, String::new()); }
        let n = u64::from_le_bytes(h[0..8].try_into().unwrap());
        let l = u64::from_le_bytes(h[8..16].try_into().unwrap()) as usize;
        let mut b = vec![0u8; l.min(MAXSTATE)];
        let k = sf.read_at(&mut b, 16).unwrap_or(0);
        (n, String::from_utf8_lossy(&b[..k]).to_string())
    };
    let status;
    let mut hung = false;
    loop {
        if let Some(s) = ch.try_wait().unwrap() { status = Some(s); break; }
        std::thread::sleep(Duration::from_millis(100));
        let (n, _) = read();
        if n != last { last = n; since = Instant::now(); }
        if since.elapsed() > Duration::from_secs(25) && last > 0 { hung = true; let _ = ch.kill(); status = ch.wait().ok(); break; }
    }
    let mut err = String::new();
    if let Some(mut e) = ch.stderr.take() { let mut b = vec![]; let _ = e.read_to_end(&mut b); err = String::from_utf8_lossy(&b).to_string(); }
    let ok = status.map(|s| s.success()).unwrap_or(false);
    if ok && !hung {
        std::fs::rename(&tmpout, &out).unwrap();
    } else {
        let (n, d) = read();
        let code = status.and_then(|s| s.code());
        if code == Some(2) || code == Some(3) || n == 0 { eprintln!("{}", err); std::process::exit(code.unwrap_or(3)); }
        let why = if hung { "the code did not return within 25 s on this input".to_string() }
                  else { format!("the process was ended while running this input ({:?}): {}", status, err.lines().last().unwrap_or("")) };
        let o = format!("{{\"property\":{},\"evaluations\":{},\"distinct\":{},\"elapsed\":0,\"samples\":[],\"notes\":[],\"parts\":{{}},\"violations\":[{{\"input\":{},\"detail\":{}}}]}}",
            js(&args[2]), n, n, js(&d), js(&why));
        std::fs::write(&out, o).unwrap();
    }
    let _ = std::fs::remove_file(&statef);
    let _ = std::fs::remove_file(&tmpout);
}
