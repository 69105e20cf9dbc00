//! C36: the binding for Python and the tool for relations
use std::io::{BufRead, BufReader, Read};
use std::process::{Command, Stdio};
use vh::R::*;
use vh::*;

fn parsed(line: &str, x: &str, y: &str, rel: &str) {
    let want = if rel.is_empty() { inh(nm(x), nm(y)) } else { inh(Prod(vec![nm(x), nm(y)]), nm(rel)) };
    guarded(|| match nar20_1::NarseseParser::parseNarsese(&line.to_string()) {
        Some((t, _, p, _)) => {
            if R::of(&t) != want || p != nar20_1::NarSentence::EnumPunctation::JUGEMENT {
                viol("tool", format!("{:?} is understood as {:?}", line, R::of(&t)));
            }
            cnt("printed lines understood", 1);
        }
        None => viol("tool", format!("{:?} is not understood by the reasoner", line)),
    });
}

fn main() {
    let cfg = init("C36", 8.0, 90.0, "one evaluation per scenario: bindings with planned outputs of the stand-in, a session with the real reasoner, a run of the relation tool; distinct by the lines sent");
    assume("texts given to the binding are single lines without carriage returns, in UTF-8");
    let dir = std::env::current_dir().unwrap().join("c36_files");
    let _ = std::fs::create_dir_all(&dir);
    let main = std::env::current_exe().unwrap().with_file_name("nar20_main");
    let driver = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("py/drive.py");
    let secs = cfg.q(8, 90);
    watch(false); // the drivers have time limits of their own
    par(&cfg, 6, 36, |i, r| {
        let d = dir.join(format!("w{}", i));
        let _ = std::fs::create_dir_all(&d);
        let seed = r.n(1 << 30);
        set_what(&format!("driver with seed {}", seed));
        let mut ch = Command::new("python3")
            .args([driver.to_str().unwrap(), &seed.to_string(), &secs.to_string(), d.to_str().unwrap(), "/repo", main.to_str().unwrap()])
            .env("PYTHONDONTWRITEBYTECODE", "1")
            .env("PYTHONUTF8", "1")
            .current_dir(&d)
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .unwrap();
        let mut e = ch.stderr.take().unwrap();
        let err = std::thread::spawn(move || {
            let mut s = vec![];
            let _ = e.read_to_end(&mut s);
            String::from_utf8_lossy(&s).to_string()
        });
        let mut done = false;
        for l in BufReader::new(ch.stdout.take().unwrap()).lines() {
            let l = match l {
                Ok(l) => l,
                Err(_) => break,
            };
            tick();
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "V" => viol(f[1], f[2..].join(" ")),
                "S" => {
                    set_input(&format!("seed {}, {}", seed, f[1]));
                    ev(f[1].to_string())
                }
                "C" => cnt(f[1], f[2].parse().unwrap_or(0)),
                "P" => parsed(f[1], f[2], f[3], f[4]),
                "D" => done = true,
                _ => {}
            }
        }
        let _ = ch.kill();
        let _ = ch.wait();
        if !done {
            eprintln!("driver with seed {} did not end properly", seed);
            // the reader of the errors ends with the last process which has them
            std::thread::sleep(std::time::Duration::from_millis(200));
            if err.is_finished() {
                eprintln!("{}", err.join().unwrap_or_default());
            }
            std::process::exit(3);
        }
    });
    sample(get_input());
    let _ = std::fs::remove_dir_all(&dir);
    finish();
}
