//! Concurrent calls under a controlled schedule: C17.
use crate::cx::*;
use crate::model::{diff_items, encoded_len, gen_items, Items};
use crate::mp4::{self, Opts};
use crate::sim::*;
use crate::store::Store;
use crate::tape::{Rng, Tape};
use mp4ameta::{AudioInfo, Tag};
use std::sync::Arc;

const SHARED: &str = "/sim/shared.m4a";

#[derive(Clone, Debug)]
enum Job {
    Read(String, Src),
    /// The number of the tag.
    Save(String, usize, Via),
    Dump(String, usize, To),
}

#[derive(Default)]
struct Res {
    tag: Option<(Items, (String, AudioInfo))>,
    text: String,
    panic: bool,
    hang: bool,
    /// What the file held, if nothing changed it during the call.
    stable: Option<Store>,
    /// A fault hit this thread by now.
    fired: bool,
}

fn muts(sim: &Sim, path: &str) -> Option<(u64, Store)> {
    let w = sim.lock();
    w.names.get(path).map(|&i| (w.inodes[i].muts, w.inodes[i].store.clone()))
}

fn exec(sim: &Sim, tid: usize, j: &Job, tags: &[Tag]) -> Res {
    let mut r = Res::default();
    fn fill<T>(r: &mut Res, d: &Done<T>) {
        r.text = d.describe();
        r.panic = d.panicked().is_some();
        r.hang = d.hang;
    }
    match j {
        Job::Read(p, src) => {
            let before = muts(sim, p);
            let d = read(sim, p, *src, 0);
            let after = muts(sim, p).map(|x| x.0);
            fill(&mut r, &d);
            if before.as_ref().map(|x| x.0) == after {
                r.stable = before.map(|x| x.1);
            }
            if let Out::Ok(t) = &d.out {
                r.tag = Some((tag_items(t), info_of(t)));
            }
        }
        Job::Save(p, k, via) => {
            let d = save(sim, p, &tags[*k], *via);
            fill(&mut r, &d);
        }
        Job::Dump(p, k, to) => {
            let d = dump(sim, p, &tags[*k], *to);
            fill(&mut r, &d);
        }
    }
    r.fired = sim.lock().fired_by.contains(&tid);
    r
}

/// Thread switches: a handful at drawn places, or very many.
fn gen_plan(t: &mut Tape, n: usize) -> Vec<(u32, usize)> {
    match t.weighted(&[4, 2, 2]) {
        0 => {
            let k = 1 + t.log(14);
            (0..k).map(|_| (t.log(150) as u32, t.usize(n))).collect()
        }
        1 => {
            // at every call for a while
            let k = 1 + t.log(2000);
            let skip = t.log(100) as u32;
            (0..k as usize).map(|i| (if i == 0 { skip } else { 0 }, (i + 1) % n)).collect()
        }
        _ => {
            let mut r = Rng::new(t.below(1 << 30));
            let k = 1 + t.log(600);
            let gap = 1 + t.log(60);
            (0..k).map(|_| (r.below(gap) as u32, r.below(n as u64) as usize)).collect()
        }
    }
}

fn own(i: usize) -> String {
    format!("/sim/{}.m4a", i)
}
fn out(i: usize) -> String {
    format!("/sim/{}.out", i)
}

pub fn c17(cx: &mut Cx) -> R {
    let n = if cx.t.chance(1, 40) { 6 + cx.t.usize(14) } else { 2 + cx.t.weighted(&[5, 3, 2, 1]) };
    let race = cx.t.chance(2, 5);
    let readers = !race && cx.t.chance(1, 4);
    let small = Opts { items: 4, val: 120, big_tables: false, ..Opts::default() };
    let big = Opts { items: 6, val: 2000, ..Opts::default() };
    let shared = {
        let o = if cx.t.chance(1, 4) { big } else { small };
        gen_container(cx, o)
    };
    // files of the threads, some of them damaged
    let mut files: Vec<(String, Store)> = vec![(SHARED.into(), shared.store.clone())];
    for i in 0..n {
        if readers {
            continue;
        }
        let c = gen_container(cx, small);
        let mut s = c.store.clone();
        if cx.t.chance(1, 10) {
            s = mp4::damage(&mut cx.t, &s).0;
        }
        files.push((own(i), s));
    }
    let ntags = 1 + cx.t.below(3) as usize;
    let mut contents: Vec<Items> = Vec::new();
    for _ in 0..ntags {
        let v = match cx.t.below(4) {
            0 => gen_items(&mut cx.t, 3, 3000),
            _ => gen_tag_items(&mut cx.t, &shared.items, 4, 200),
        };
        contents.push(v);
    }
    let tags: Arc<Vec<Tag>> = Arc::new(contents.iter().map(make).collect());
    let mut jobs: Vec<Vec<Job>> = Vec::new();
    for i in 0..n {
        let k = 1 + cx.t.weighted(&[5, 2, 1]);
        let mut v = Vec::new();
        for _ in 0..k {
            let t = &mut cx.t;
            let tag = t.usize(ntags);
            let j = if race && i == 0 {
                let via = gen_via(t, shared.store.len());
                Job::Save(SHARED.into(), tag, via)
            } else if readers {
                Job::Read(SHARED.into(), gen_src(t))
            } else {
                match t.weighted(if race { &[6, 1, 2, 1] } else { &[2, 3, 4, 2] }) {
                    0 => Job::Read(SHARED.into(), gen_src(t)),
                    1 => Job::Read(own(i), gen_src(t)),
                    2 => {
                        let via = gen_via(t, 3000);
                        Job::Save(own(i), tag, via)
                    }
                    _ => Job::Dump(out(i), tag, gen_to(t)),
                }
            };
            v.push(j);
        }
        jobs.push(v);
    }
    let reference_first = cx.t.mostly(1, 2);
    let mut reference: Option<(Vec<Vec<Res>>, Sim)> = None;
    let setup = |sim: &Sim| {
        let mut w = sim.lock();
        for (p, s) in &files {
            w.put(p, s.clone());
        }
        w.limit = u64::MAX / 16;
    };
    // one at a time, in the order of the threads
    let sequential = |cx: &mut Cx| -> (Vec<Vec<Res>>, Sim) {
        let sim = cx.world("one at a time");
        setup(&sim);
        let r = jobs.iter().map(|v| v.iter().map(|j| exec(&sim, 0, j, &tags)).collect()).collect();
        (r, sim)
    };
    if reference_first {
        reference = Some(sequential(cx));
    }

    let plan = gen_plan(&mut cx.t, n);
    let noise = gen_noise(&mut cx.t);
    let sim = cx.world("interleaved");
    setup(&sim);
    let faulty = cx.t.chance(1, 4);
    {
        let mut w = sim.lock();
        w.set_noise(noise);
        let bytes: u64 = files.iter().map(|f| f.1.len()).sum::<u64>() + contents.iter().map(encoded_len).sum::<u64>();
        let calls: u64 = jobs.iter().map(|v| v.len() as u64).sum();
        w.limit = calls * (10_000 + 40 * bytes);
        if faulty {
            let op = *cx.t.pick(&[Op::Read, Op::Open, Op::Write, Op::Seek, Op::Trunc, Op::Stat]);
            let nth = cx.t.log(200) as u32;
            let kind = match (op, cx.t.below(4)) {
                (Op::Read, 0) => Kind::Eof,
                (Op::Write, 0) => Kind::Zero,
                _ => Kind::Errno(EIO),
            };
            w.plan.push(Fault { op: Some(op), nth, kind, sticky: false });
        }
    }
    cx.say(&sim, || format!("{} threads: {:?}, tags {:?}", n, jobs, contents));
    sim.lock().begin_op();
    sim.prepare_sched();
    let mut handles = Vec::new();
    for (i, v) in jobs.iter().cloned().enumerate() {
        let (sim, tags) = (sim.clone(), tags.clone());
        handles.push(
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || {
                    TID.with(|t| t.set(i));
                    sim.wait_turn(i);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.iter().map(|j| exec(&sim, i, j, &tags)).collect::<Vec<Res>>()));
                    sim.thread_done(i);
                    r
                })
                .expect("thread"),
        );
    }
    sim.start_sched(n, plan);
    let results: Vec<Vec<Res>> = handles.into_iter().map(|h| h.join().expect("thread").unwrap_or_else(|e| std::panic::resume_unwind(e))).collect();
    sim.end_sched();
    let switches = {
        let mut w = sim.lock();
        w.calm();
        w.limit = u64::MAX / 16;
        w.stats.switches
    };
    cx.nontrivial = switches > 0;
    let (want, rsim) = match reference {
        Some(r) => r,
        None => sequential(cx),
    };

    let mut overlapped = 0;
    for (i, v) in results.iter().enumerate() {
        for (k, r) in v.iter().enumerate() {
            let j = &jobs[i][k];
            let name = format!("thread {} call {} ({:?})", i, k, j);
            if r.fired {
                // this thread met an I/O error: its results are judged elsewhere
                break;
            }
            cx.evals += 1;
            if r.hang {
                return viol("hang", format!("{} does not end", name));
            }
            let racing = race && matches!(j, Job::Read(p, _) if p == SHARED);
            if racing {
                if r.panic {
                    return viol("panic", format!("{}: {}", name, r.text));
                }
                match &r.stable {
                    None => overlapped += 1,
                    Some(s) => {
                        // nobody wrote during this read: it must see what the file held
                        let Job::Read(_, src) = j else { continue };
                        let w = cx.world("the file as it was");
                        w.lock().put(SHARED, s.clone());
                        w.lock().limit = u64::MAX / 16;
                        let x = exec(&w, 0, &Job::Read(SHARED.into(), *src), &tags);
                        cx.release(&w);
                        if (&x.tag, &x.text) != (&r.tag, &r.text) {
                            return viol("result-differs", format!("{}: {} {:?}; alone: {} {:?}", name, r.text, r.tag, x.text, x.tag));
                        }
                    }
                }
                continue;
            }
            let x = &want[i][k];
            if (&x.tag, &x.text) != (&r.tag, &r.text) {
                return viol("result-differs", format!("{}: {} {:?}; one at a time: {} {:?}", name, r.text, r.tag, x.text, x.tag));
            }
        }
    }
    let hit = sim.lock().fired_by.clone();
    for i in 0..n {
        if hit.contains(&i) {
            continue;
        }
        let mut paths = vec![own(i), out(i)];
        if race && i == 0 {
            paths.push(SHARED.into());
        }
        for p in paths {
            let (a, b) = (sim.lock().file(&p).cloned(), rsim.lock().file(&p).cloned());
            let same = match (&a, &b) {
                (Some(a), Some(b)) => first_diff(a, b),
                (None, None) => None,
                _ => Some(0),
            };
            if let Some(d) = same {
                return viol("file-differs", format!("{} differs from the one written one at a time, first at {}", p, d));
            }
            cx.evals += 1;
        }
    }
    if !race && first_diff(&sim.lock().get(SHARED), &shared.store).is_some() {
        return viol("file-differs", "the file everybody only reads changed");
    }
    if race && !hit.contains(&0) {
        let all_ok = want[0].iter().all(|r| r.text == "success");
        let last = jobs[0].iter().rev().find_map(|j| match j {
            Job::Save(p, k, _) if p == SHARED => Some(*k),
            _ => None,
        });
        if let (true, Some(k)) = (all_ok, last) {
            let src = gen_src(&mut cx.t);
            match read(&sim, SHARED, src, 0).out {
                Out::Ok(t) => {
                    if let Some(m) = diff_items(&contents[k], &tag_items(&t)) {
                        return viol("read-after-race", format!("reading after the race: {}", m));
                    }
                }
                o => return viol("read-after-race", format!("reading after the race: {}", o.describe())),
            }
            cx.evals += 1;
        }
    }
    cx.sample = format!(
        "{} threads, {} calls, {} switches, {}, {} reads overlapped a save",
        n,
        jobs.iter().map(|v| v.len()).sum::<usize>(),
        switches,
        if race { "one saves the file others read" } else if readers { "all read one file" } else { "own files and one read by all" },
        overlapped
    );
    Ok(())
}
