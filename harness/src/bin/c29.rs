//! C29: pong, every step is compared with the rules
#![allow(non_snake_case)]
use nar20_1::EnvPong3::*;
use nar20_1::NarProc::Op;
use nar20_1::Reasoner1Entry::OpPong;
use std::cell::RefCell;
use std::rc::Rc;
use vh::*;

fn main() {
    let cfg = init("C29", 6.0, 60.0, "every simulated step is compared with the rules; distinct by ball, bat and velocities before the step");
    assume("games start with the ball and the bat on the field; that the ball stays on the field is judged for its standard speed only");
    let dl = cfg.deadline();
    par(&cfg, 4, 29, |_i, r| {
        let mut rng = rand::thread_rng();
        let mut pn = nar20_1::NarProc::narInit();
        until(dl, || {
            let mut e0 = makeEnvState();
            e0.verbosity = 0;
            if r.chance(0.5) {
                e0.szX = r.range(20, 80);
                e0.szY = r.range(4, 40);
                e0.batWidth = r.range(1, 6);
                e0.ballX = r.range(0, e0.szX - 1);
                e0.ballY = r.range(1, e0.szY - 1);
                e0.batX = r.range(2 * e0.batWidth, e0.szX - 1);
                e0.vX = *r.pick(&[1, -1]);
                e0.vY = *r.pick(&[1, -1]);
                e0.t = r.n(2) as i64;
                if r.chance(0.3) {
                    e0.mulVX = r.range(1, 5);
                }
            }
            let env = Rc::new(RefCell::new(e0));
            let left = OpPong { env: Rc::clone(&env), opDir: 1, selfName: "^L".to_string() };
            let right = OpPong { env: Rc::clone(&env), opDir: -1, selfName: "^R".to_string() };
            if left.retName() != "^L" || right.retName() != "^R" {
                viol("op", "an operation does not have its name".to_string());
            }
            let mul = env.borrow().mulVX;
            let mut dir = env.borrow().batVX;
            let mut hold = 0;
            for _ in 0..400 {
                if hold == 0 {
                    hold = r.n(12);
                    match r.n(3) {
                        0 => {
                            left.call(&mut pn, &None, &vec![]);
                            dir = 1;
                            cnt("moves to the one side", 1);
                        }
                        1 => {
                            right.call(&mut pn, &None, &vec![]);
                            dir = -1;
                            cnt("moves to the other side", 1);
                        }
                        _ => {}
                    }
                } else {
                    hold -= 1;
                }
                let b = {
                    let e = env.borrow();
                    (e.szX, e.szY, e.ballX, e.ballY, e.batX, e.batVX, e.batWidth, e.vX, e.vY, e.hits, e.misses, e.t)
                };
                let (sx, sy, bx, by, bat, bvx, bw, vx0, vy0, hits, misses, t) = b;
                let info = format!("field {}x{} ball {},{} velocity {},{} bat {} moving {} width {} time {} speed {}", sx, sy, bx, by, vx0, vy0, bat, bvx, bw, t, mul);
                set_input(&info);
                if bvx != dir {
                    viol("op", format!("{} | bat should move {} after the operation", info, dir));
                    return;
                }
                if guarded(|| simStep(&mut env.borrow_mut(), &mut rng)).is_none() {
                    return;
                }
                let e = env.borrow();
                // bounces at the borders
                let vx = if bx <= 0 { 1 } else if bx >= sx - 1 { -1 } else { vx0 };
                let vy = if by <= 0 { 1 } else if by >= sy - 1 { -1 } else { vy0 };
                let t1 = t + 1;
                let nx = bx + if t1 % 2 == 1 { vx } else { 0 } + vx * mul;
                let ny = by + vy;
                let at_bat = ny == 0;
                let hit = at_bat && (nx - bat).abs() <= bw;
                let respawn = at_bat || nx == 0 || nx >= sx - 1;
                let nbat = (bat + bvx * bw / 2).min(sx - 1 + bw).max(2 * bw);
                let mut bad: Vec<String> = vec![];
                if e.t != t1 {
                    bad.push(format!("time is {}", e.t));
                }
                if e.hits != hits + hit as i64 || e.misses != misses + (at_bat && !hit) as i64 {
                    bad.push(format!("hits {}->{} misses {}->{}, ball reached the bat line: {}, bat under the ball: {}", hits, e.hits, misses, e.misses, at_bat, hit));
                }
                if e.was_ball_spawned != respawn {
                    bad.push(format!("ball replaced: {}, should be {}", e.was_ball_spawned, respawn));
                }
                if respawn {
                    if e.ballY < sy / 2 || e.ballY >= sy || e.ballX < 0 || e.ballX >= sx || e.vX.abs() != 1 {
                        bad.push(format!("replaced ball at {},{} velocity {}", e.ballX, e.ballY, e.vX));
                    }
                    cnt("replaced balls", 1);
                } else if (e.ballX, e.ballY, e.vX) != (nx, ny, vx) {
                    bad.push(format!("ball at {},{} velocity {}, should be {},{} velocity {}", e.ballX, e.ballY, e.vX, nx, ny, vx));
                }
                if e.vY != vy {
                    bad.push(format!("vertical velocity {}, should be {}", e.vY, vy));
                }
                if e.batX != nbat || e.batVX != bvx {
                    bad.push(format!("bat at {} moving {}, should be {} moving {}", e.batX, e.batVX, nbat, bvx));
                }
                if mul == 0 && (e.ballX < 0 || e.ballX >= sx) || e.ballY < 0 || e.ballY >= sy {
                    bad.push(format!("ball left the field: {},{}", e.ballX, e.ballY));
                }
                if (e.szX, e.szY, e.batWidth, e.mulVX) != (sx, sy, bw, mul) {
                    bad.push("the field changed".to_string());
                }
                if !bad.is_empty() {
                    viol("rule", format!("{} | {}", info, bad.join("; ")));
                    return;
                }
                if hit {
                    cnt("hits", 1);
                } else if at_bat {
                    cnt("misses", 1);
                }
                ev((sx, sy, bx, by, bat, bvx, bw, vx0, vy0, t % 2));
            }
            cnt("games", 1);
        });
        vh::sys::stop_store(&mut pn);
    });
    sample(get_input());
    finish();
}
