//! C30: tic-tac-toe, games are played in processes of their own and their record is checked
use std::io::{BufRead, BufReader};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use vh::*;

vh::own_clock!();

const LINES: [[usize; 3]; 8] = [[0, 1, 2], [3, 4, 5], [6, 7, 8], [0, 3, 6], [1, 4, 7], [2, 5, 8], [0, 4, 8], [2, 4, 6]];

fn winner(b: &[char]) -> Option<char> {
    LINES.iter().find(|l| b[l[0]] != ' ' && b[l[0]] == b[l[1]] && b[l[1]] == b[l[2]]).map(|l| b[l[0]])
}

/// cells in a line which shows the state of the game
fn board(l: &str) -> Option<Vec<char>> {
    if !l.contains("field") {
        return None;
    }
    let i = l.find('[')?;
    let k = l.rfind(']')?;
    let v: Vec<char> = l[i + 1..k].split(',').filter_map(|x| x.split('\'').nth(1).and_then(|c| c.chars().next())).collect();
    if v.len() == 9 {
        Some(v)
    } else {
        None
    }
}

fn play(dl: Instant, r: &mut Rng) {
    let mut child = match Command::new(std::env::current_exe().unwrap()).arg("play").arg(["1", "30", "100", "300"][r.n(4)]).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(_) => return,
    };
    let mut err = child.stderr.take().unwrap();
    let eh = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = std::io::Read::read_to_end(&mut err, &mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let out = BufReader::new(child.stdout.take().unwrap());
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        for l in out.lines() {
            match l {
                Ok(l) => {
                    if l.contains("field") || l.starts_with("WINNER") || l.starts_with("DRAW") || l.contains("w/l ratio") || l.starts_with("NARS stimulus") {
                        if tx.send(l).is_err() {
                            return;
                        }
                    }
                }
                Err(_) => return,
            }
        }
    });
    let mut cur: Vec<char> = vec![' '; 9];
    let mut next = 'a';
    let mut moves: Vec<String> = vec![];
    let (mut wins, mut losses, mut games) = (0i64, 0i64, 0i64);
    let mut pending: Option<char> = None; // announced result which must be right
    let mut quiet = Instant::now();
    let _ = r;
    loop {
        if Instant::now() > dl || stop_requested() {
            break;
        }
        let l = match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(l) => {
                tick();
                quiet = Instant::now();
                l
            }
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                if quiet.elapsed() < Duration::from_secs(40) {
                    tick();
                }
                if quiet.elapsed() > Duration::from_secs(60) {
                    viol("stuck", format!("no move since a minute after {:?}", moves));
                    break;
                }
                continue;
            }
            Err(_) => {
                let e = eh.join().unwrap_or_default();
                viol("ended", format!("the games ended after {:?}: {}", moves, e.chars().take(500).collect::<String>()));
                let _ = child.wait();
                return;
            }
        };
        let info = format!("game {} moves {:?}", games, moves);
        if let Some(b) = board(&l) {
            // a new position; did the last one end the game?
            let over = winner(&cur).is_some() || cur.iter().all(|c| *c != ' ');
            if over {
                viol("not-ended", format!("{} | the game goes on after it was decided: {:?}", info, b));
                break;
            }
            let ch: Vec<usize> = (0..9).filter(|i| b[*i] != cur[*i]).collect();
            if ch.len() != 1 || cur[ch[0]] != ' ' || b[ch[0]] != next {
                viol("move", format!("{} | {:?} is followed by {:?}, it was the move of {}", info, cur, b, next));
                break;
            }
            // whose turn it was is shown too
            if l.contains("player") && l.contains("player: true") != (next == 'a') {
                viol("move", format!("{} | wrong player is shown: {}", info, l));
                break;
            }
            moves.push(format!("{}{}", next, ch[0]));
            ev(&b);
            cnt("moves", 1);
            cur = b;
            next = if next == 'a' { 'b' } else { 'a' };
        } else if l.starts_with("WINNER") {
            let w = l.trim().chars().last().unwrap_or(' ');
            if winner(&cur) != Some(w) {
                viol("result", format!("{} | announced {} for {:?}", info, l, cur));
                break;
            }
            pending = Some(w);
            cnt(if w == 'a' { "games won by the agent" } else { "games won by the opponent" }, 1);
            if w == 'a' {
                wins += 1;
            } else {
                losses += 1;
            }
            ev(("end", &moves));
            moves.clear();
            games += 1;
            cur = vec![' '; 9];
            next = 'a';
        } else if l.contains("w/l ratio") {
            // tells the score up to this game (with or without it)
            let x: Option<f64> = l.split('=').nth(1).and_then(|s| s.trim().split(' ').next().and_then(|s| s.parse().ok()));
            if let (Some(x), Some(w)) = (x, pending) {
                let (a0, l0) = if w == 'a' { (wins - 1, losses) } else { (wins, losses - 1) };
                let eq = |a: i64, l: i64| {
                    let q = a as f64 / l as f64;
                    (q.is_nan() && x.is_nan()) || q == x || (q - x).abs() < 1e-9
                };
                if !eq(a0, l0) && !eq(wins, losses) {
                    viol("score", format!("announced {} but {} games were won and {} lost", l, wins, losses));
                    break;
                }
                cnt("scores checked", 1);
            }
        } else if l.starts_with("DRAW") {
            if winner(&cur).is_some() || cur.iter().any(|c| *c == ' ') {
                viol("result", format!("{} | announced a draw for {:?}", info, cur));
                break;
            }
            cnt("draws", 1);
            ev(("end", &moves));
            moves.clear();
            games += 1;
            cur = vec![' '; 9];
            next = 'a';
        } else if l.starts_with("NARS stimulus") {
            // what the agent perceives is the position
            let s = l.split(':').nth(1).unwrap_or("").trim().to_string();
            let want: String = cur.iter().map(|c| if *c == ' ' { 'S' } else { *c }).collect();
            if s != want {
                viol("perception", format!("{} | the agent perceives {} but the position is {}", info, s, want));
                break;
            }
            cnt("perceived positions", 1);
        }
        if moves.len() == 5 {
            sample(info);
        }
    }
    let _ = child.kill();
    let _ = child.wait();
    cnt("game processes", 1);
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("play") {
        if let Some(k) = std::env::args().nth(2).and_then(|x| x.parse().ok()) {
            vh::clock::scale(k);
        }
        // ends when the monitor ends: the output can not be written any more
        nar20_1::ProcTicTacToe::run(1_000_000);
        std::process::exit(0);
    }
    let cfg = init("C30", 16.0, 200.0, "every position shown by a running game is compared with the one before; distinct by position");
    let dl = cfg.deadline();
    par(&cfg, 8, 30, |_i, r| {
        while Instant::now() < dl && !stop_requested() {
            play(dl, r);
        }
    });
    finish();
}
