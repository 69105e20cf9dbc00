//! C33: natural language sentences yield exactly the relations which the network of the model selects
use nar20_1::ModNlpA as N;
use nar20_1::NarInputFacade;
use vh::sys::*;
use vh::*;

const WORDS: &[(&str, i64)] = &[
    ("Tom", 2), ("Tim", 2), ("John", 2), ("is", 0), ("can", 17), ("are", 6), ("?", 13), ("to", 9), ("of", 15), ("the", 8), ("what", 12), ("and", 3),
    ("fast", 1), ("slow", 1), ("fat", 1), ("thin", 1), ("good", 1), ("bad", 1), ("dance", 10), ("hunting", 5), ("purpose", 5), ("food", 5), ("Cat", 5), ("want", 11),
];
const CODES: usize = 34;
const SIGNS: usize = 12;

#[derive(Clone)]
struct Net {
    // per layer, per neuron: weights, bias
    l: Vec<Vec<(Vec<f64>, f64)>>,
}

fn small(r: &mut Rng) -> f64 {
    (r.f() + r.f() + r.f() - 1.5) * 1.2
}
fn gen_net(r: &mut Rng) -> Net {
    let h = 1 + r.n(6);
    let o = 8 + r.n(8);
    let scale = *r.pick(&[1.0, 0.3, 3.0]);
    let mut l0 = vec![];
    for _ in 0..h {
        l0.push(((0..CODES * SIGNS).map(|_| small(r)).collect::<Vec<f64>>(), small(r)));
    }
    let mut l1 = vec![];
    for k in 0..o {
        // actions which build relations should win often, the end sometimes
        let up = match k {
            0 => -0.2,
            1 | 2 | 3 | 4 | 7 => 0.4,
            _ => -0.3,
        };
        l1.push(((0..h).map(|_| small(r) * scale).collect::<Vec<f64>>(), small(r) * 0.5 + up));
    }
    if r.chance(0.3) {
        // weights which are exactly zero
        for (w, _) in l0.iter_mut().chain(l1.iter_mut()) {
            for x in w.iter_mut() {
                if r.chance(0.2) {
                    *x = 0.0;
                }
            }
        }
    }
    Net { l: vec![l0, l1] }
}
fn store(net: &Net) {
    let _ = std::fs::remove_file("nn_nlp0.db");
    let mut c = rusqlite::Connection::open("nn_nlp0.db").unwrap();
    c.execute(
        "create table if not exists weights (id integer primary key AUTOINCREMENT, nnid integer not null, layer integer not null, neuronidx integer not null, valueid integer not null, value real not null)",
        [],
    )
    .unwrap();
    let t = c.transaction().unwrap();
    {
        let mut s = t.prepare("INSERT INTO weights (nnid,layer,neuronidx,valueid,value) values (?1,?2,?3,?4,?5)").unwrap();
        for (i, l) in net.l.iter().enumerate() {
            for (k, (w, b)) in l.iter().enumerate() {
                s.execute(rusqlite::params![0, i as i64, k as i64, -1i64, b]).unwrap();
                for (m, x) in w.iter().enumerate() {
                    s.execute(rusqlite::params![0, i as i64, k as i64, m as i64, x]).unwrap();
                }
            }
        }
    }
    t.commit().unwrap();
}
fn input(codes: &[i64]) -> Vec<f64> {
    let mut c = vec![33i64; SIGNS];
    let n = codes.len().min(SIGNS);
    for k in 0..n {
        c[SIGNS - 1 - k] = codes[codes.len() - 1 - k];
    }
    let mut v = vec![0.0; CODES * SIGNS];
    for (i, x) in c.iter().enumerate() {
        v[i * CODES + *x as usize] = 1.0;
    }
    v
}
fn output(net: &Net, inp: &[f64]) -> Vec<f64> {
    let mut x = inp.to_vec();
    for l in &net.l {
        x = l.iter().map(|(w, b)| w.iter().zip(&x).map(|(a, b)| a * b).sum::<f64>() + b).collect();
    }
    x
}
/// None if it is too close to be told
fn winner(o: &[f64]) -> Option<i64> {
    let c: Vec<f64> = o.iter().map(|x| x.max(0.0).min(1.0)).collect();
    let m = c.iter().cloned().fold(0.0f64, f64::max);
    if o.iter().any(|x| (x.abs() < 1e-9) || (x - 1.0).abs() < 1e-9) {
        return None;
    }
    if m == 0.0 {
        return Some(0);
    }
    let k = c.iter().position(|x| *x == m).unwrap();
    if m < 1.0 && c.iter().enumerate().any(|(i, x)| i != k && (m - x).abs() < 1e-9) {
        return None;
    }
    Some(k as i64)
}
/// actions and relations (head, first, second)
fn reference(net: &Net, ws: &[String]) -> Option<(Vec<i64>, Vec<(String, String, String)>)> {
    let mut codes = vec![];
    for w in ws {
        match WORDS.iter().find(|x| x.0 == w) {
            Some(x) => codes.push(x.1),
            None => return Some((vec![], vec![])),
        }
    }
    codes.push(7);
    let (mut acts, mut rels) = (vec![], vec![]);
    for _ in 0..10 {
        let a = winner(&output(net, &input(&codes)))?;
        acts.push(a);
        if a == 0 {
            break;
        }
        let g = |k: usize| ws.get(k).cloned();
        let rel = match a {
            1 => (g(1), g(0), g(2)),
            2 => (g(3), g(0), g(4)),
            3 => (g(3), g(2), g(4)),
            4 => (Some("want_to".to_string()), g(0), g(3)),
            7 => (g(1), g(0), g(4)),
            _ => (None, None, None),
        };
        if let (Some(h), Some(x), Some(y)) = rel {
            rels.push((h, x, y));
        }
        codes.push(18 + a);
    }
    Some((acts, rels))
}

fn sentence_of(r: &mut Rng) -> Vec<String> {
    let n = match r.n(12) {
        0 => r.n(3),
        1 => 6 + r.n(14),
        _ => 3 + r.n(4),
    };
    let mut v: Vec<String> = (0..n).map(|_| r.pick(WORDS).0.to_string()).collect();
    if r.chance(0.06) && !v.is_empty() {
        let i = r.n(v.len());
        v[i] = r.pick(&["tom", "unknown", "Hund", "é", ".", "Is", "fats"]).to_string();
    }
    v
}

fn quiet<T>(info: &str, f: impl FnOnce() -> T) -> Option<T> {
    set_input(info);
    set_what(info);
    let x = guarded(f);
    tick();
    x
}

fn run(r: &mut Rng) {
    let net = gen_net(r);
    store(&net);
    let netinfo = format!("network hidden {} outputs {} first weight {}", net.l[0].len(), net.l[1].len(), net.l[0][0].0[0]);
    // the extraction itself
    for _ in 0..12 {
        let ws = sentence_of(r);
        let want = match reference(&net, &ws) {
            Some(x) => x,
            None => continue,
        };
        let info = format!("{} words {:?}", netinfo, ws);
        let (acts, rels) = match quiet(&info, || N::network_run(&ws)) {
            Some(x) => x,
            None => return,
        };
        let got: Vec<(String, String, String)> = rels.iter().filter(|x| x.args.len() == 2).map(|x| (x.head.clone(), x.args[0].clone(), x.args[1].clone())).collect();
        if acts != want.0 || got != want.1 || rels.len() != got.len() {
            viol("relations", format!("{} | actions {:?} relations {:?}, should be {:?} and {:?}", info, acts, got, want.0, want.1));
            return;
        }
        if rels.iter().any(|x| x.isNegated || (x.conf - 0.998).abs() > 1e-12) {
            viol("relations", format!("{} | confidence of a relation is {:?}", info, rels.iter().map(|x| x.conf).collect::<Vec<_>>()));
            return;
        }
        cnt("relations extracted", got.len() as u64);
        cnt("actions", acts.len() as u64);
        if ws.len() > 11 {
            cnt("sentences longer than the input of the network", 1);
        }
        if want.0.is_empty() {
            cnt("sentences with unknown word", 1);
        }
        ev((&ws, acts));
    }
    // through the line interface
    let mut nar = nar20_1::Nar::createNar();
    nar.cfgVerbosityInput = 0;
    let _rx = detach(&nar.mem);
    let mut told: Vec<(R, V, Vec<i64>)> = vec![];
    let mut hist: Vec<String> = vec![];
    for _ in 0..5 {
        let mut ws = sentence_of(r);
        if ws.is_empty() {
            continue;
        }
        if r.chance(0.3) {
            for _ in 0..1 + r.n(2) {
                let at = r.n(ws.len() + 1);
                ws.insert(at, "?".into());
            }
        }
        // the question mark needs no blank
        let mut line = format!("!.nlp {}", ws.join(" "));
        if r.chance(0.5) {
            line = line.replace(" ?", "?").replace("!.nlp?", "!.nlp ?").replace("? ", if r.chance(0.5) { "?" } else { "?  " });
        }
        let want = match reference(&net, &ws) {
            Some(x) => x,
            None => continue,
        };
        hist.push(line.clone());
        let info = format!("{} lines {:?}", netinfo, hist);
        let mut q = false;
        let id0 = next_id(&nar.mem);
        let out = match quiet(&info, || NarInputFacade::input(&mut nar, &line, &mut q)) {
            Some(x) => x,
            None => return,
        };
        if !out.is_empty() || q {
            viol("told", format!("{} | returned {:?} quit {}", info, out, q));
            return;
        }
        let mut id = id0;
        for (h, x, y) in &want.1 {
            if [h, x, y].iter().any(|w| *w == "?") {
                continue; // no name, can't be told
            }
            let t = inh(R::Prod(vec![nm(x), nm(y)]), nm(h));
            match told.iter_mut().find(|k| k.0 == t) {
                Some(k) => {
                    k.1 = rev(k.1, v(1.0, 0.998));
                    k.2.push(id);
                }
                None => told.push((t, v(1.0, 0.998), vec![id])),
            }
            id += 1;
        }
        if next_id(&nar.mem) != id {
            viol("told", format!("{} | {} judgements were told, should be {} of {:?}", info, next_id(&nar.mem) - id0, id - id0, want.1));
            return;
        }
        if told.iter().all(|x| x.2.len() <= 100) {
            if let Some(d) = diff_mem(&nar.mem, &told) {
                viol("told", format!("{} | {}", info, d));
                return;
            }
        }
        cnt("judgements told", (id - id0) as u64);
        ev(("line", &line, want.0));
    }
    stop_store(&mut nar.procNar);
    stop_workers(&nar.mem);
}

/// dual numbers and encodings
fn parts(r: &mut Rng) {
    let net = gen_net(r);
    let nn = N::NeuralNetwork {
        layers: net
            .l
            .iter()
            .map(|l| N::Layer { neurons: l.iter().map(|(w, b)| N::WeightBias { weights: w.iter().map(|x| (*x, 0.0)).collect(), bias: (*b, 0.0) }).collect() })
            .collect(),
    };
    let n = r.n(20);
    let seq: Vec<i64> = (0..n).map(|_| r.n(34) as i64).collect();
    let info = format!("codes {:?}", seq);
    let enc = match quiet(&info, || N::conv_seq_to_nninput(&N::Seq { seq: seq.clone(), outonehot: -1 })) {
        Some(x) => x,
        None => return,
    };
    let w = input(&seq);
    if enc.len() != w.len() || enc.iter().zip(&w).any(|(a, b)| a.0 != *b || a.1 != 0.0) {
        viol("encoding", format!("{} | encoded wrongly: ones at {:?}, should be {:?}", info, enc.iter().enumerate().filter(|x| x.1 .0 != 0.0).map(|x| x.0).collect::<Vec<_>>(), w.iter().enumerate().filter(|x| *x.1 != 0.0).map(|x| x.0).collect::<Vec<_>>()));
        return;
    }
    // derivative for one weight or bias
    let mut nn = nn;
    let li = r.n(2);
    let ni = r.n(net.l[li].len());
    let nw = net.l[li][ni].0.len();
    let wi = r.n(nw + 1);
    if wi == nw {
        nn.layers[li].neurons[ni].bias.1 = 1.0;
    } else {
        nn.layers[li].neurons[ni].weights[wi].1 = 1.0;
    }
    let x: Vec<(f64, f64)> = w.iter().map(|x| (*x, 0.0)).collect();
    let out = match quiet(&format!("{} layer {} neuron {} weight {}", info, li, ni, wi), || N::forward(&nn, &x)) {
        Some(x) => x,
        None => return,
    };
    let val = output(&net, &w);
    let hid: Vec<f64> = net.l[0].iter().map(|(ws, b)| ws.iter().zip(&w).map(|(a, b)| a * b).sum::<f64>() + b).collect();
    for (k, o) in out.iter().enumerate() {
        let d = if li == 1 {
            if k != ni {
                0.0
            } else if wi == nw {
                1.0
            } else {
                hid[wi]
            }
        } else {
            net.l[1][k].0[ni] * if wi == nw { 1.0 } else { w[wi] }
        };
        if (o.0 - val[k]).abs() > 1e-9 || (o.1 - d).abs() > 1e-9 {
            viol("network", format!("{} layer {} neuron {} weight {} | output {} is {:?}, should be {} with derivative {}", info, li, ni, wi, k, o, val[k], d));
            return;
        }
    }
    if out.len() != val.len() {
        viol("network", format!("{} | {} outputs, should be {}", info, out.len(), val.len()));
    }
    let v: Vec<(f64, f64)> = (0..1 + r.n(15)).map(|_| (match r.n(4) {
        0 => r.f() * 3.0 - 1.5,
        1 => -r.f(),
        _ => r.f(),
    }, r.f())).collect();
    if let Some(k) = winner(&v.iter().map(|x| x.0).collect::<Vec<_>>()) {
        if N::calc_max_onehot_idx(&v) != k {
            viol("network", format!("winner of {:?} is {}, should be {}", v, N::calc_max_onehot_idx(&v), k));
        }
    }
    ev(("parts", &seq, li, ni, wi));
}

/// without usable model nothing happens
fn no_model(r: &mut Rng) {
    let _ = std::fs::remove_file("nn_nlp0.db");
    match r.n(4) {
        0 => {}
        1 => std::fs::write("nn_nlp0.db", b"").unwrap(),
        2 => std::fs::write("nn_nlp0.db", b"this is no database, it is a text which is long enough to be read as something else").unwrap(),
        _ => {
            let c = rusqlite::Connection::open("nn_nlp0.db").unwrap();
            c.execute("create table weights (id integer primary key AUTOINCREMENT, nnid integer not null, layer integer not null, neuronidx integer not null, valueid integer not null, value real not null)", []).unwrap();
        }
    }
    let ws = sentence_of(r);
    let info = format!("no model, words {:?}", ws);
    match quiet(&info, || N::network_run(&ws)) {
        Some((a, rel)) => {
            if !a.is_empty() || !rel.is_empty() {
                viol("relations", format!("{} | yields {} actions and {} relations", info, a.len(), rel.len()));
            }
        }
        None => return,
    }
    cnt("sentences without model", 1);
    ev(("no model", ws));
}

fn main() {
    let cfg = init("C33", 9.0, 120.0, "one evaluation per sentence whose selected actions and extracted relations were compared with a reference interpreter of the same random network, per line whose told judgements were compared in the whole belief memory, per derivative of the network; distinct by words and actions");
    assume("sentences for which two outputs of the network are closer than 1e-9 are skipped; networks have at most 15 outputs as the trained one");
    let dir = std::env::current_dir().unwrap().join("c33_files");
    let _ = std::fs::create_dir_all(&dir);
    std::env::set_current_dir(&dir).unwrap();
    let dl = cfg.deadline();
    // the files of the module lie in the working directory: one thread
    par(&cfg, 1, 33, |_, r| {
        until(dl, || {
            run(r);
            for _ in 0..10 {
                parts(r);
            }
            no_model(r);
            let _ = std::fs::remove_file("logX.txt");
        });
    });
    sample(get_input());
    std::env::set_current_dir(dir.parent().unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    finish();
}
