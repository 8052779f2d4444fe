//! Checkpoints: taken, opened, written to, synchronised from and deleted.
//! Their directories are real ones (deleting one is the library's own work),
//! below a scratch directory that the run makes and removes.
use std::{path::Path as FsPath, sync::atomic::{AtomicU64, Ordering}};

use grovedb::GroveDb;

use crate::{check::*, node::*, ops::*, sim::{Cp, Sim}};

/// that many checkpoints at a time
pub const SLOTS: usize = 3;

pub struct Scratch(String);

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

static COUNT: AtomicU64 = AtomicU64::new(0);

/// the place of a checkpoint; slot `SLOTS` is a directory that isn't one
fn dir(s: &mut Sim, i: usize) -> String {
    if s.scratch.is_none() {
        let n = COUNT.fetch_add(1, Ordering::Relaxed);
        let base = format!("{}/gsim-cp-{}-{n}", std::env::temp_dir().display(), std::process::id());
        let made = std::fs::create_dir_all(format!("{base}/a/b/cp{SLOTS}"))
            .and_then(|_| std::fs::write(format!("{base}/a/b/cp{SLOTS}/data"), b"not a database"))
            .and_then(|_| std::fs::write(format!("{base}/a/b/note"), b"a file"));
        made.expect("scratch directory");
        s.world.set_scratch(&base);
        s.scratch = Some(Scratch(base));
    }
    format!("{}/a/b/cp{i}", s.scratch.as_ref().unwrap().0)
}

/// what is in the directory is what was put there
fn dirs(s: &mut Sim, what: &str) -> V {
    for i in 0..SLOTS {
        let d = dir(s, i);
        let there = FsPath::new(&d).join("CURRENT").exists();
        if there != s.cps[i].is_some() {
            return viol("checkpoint-dirs", format!("{what}: checkpoint {i} {}", if there { "is there" } else { "is gone" }));
        }
        let digest = s.cps[i].as_ref().map(|c| c.digest);
        if digest.is_some_and(|x| s.world.digest(&d) != x) {
            return viol("checkpoint", format!("{what}: the stored contents of checkpoint {i} changed"));
        }
    }
    let other = dir(s, SLOTS);
    if !FsPath::new(&other).join("data").exists() || !FsPath::new(&other).with_file_name("note").exists() {
        return viol("checkpoint-dirs", format!("{what}: files that are no checkpoint are gone"));
    }
    Ok(())
}

/// there is nothing to open
fn absent(s: &mut Sim, i: usize, what: &str) -> V {
    let d = dir(s, i);
    match guard(|| GroveDb::open_checkpoint(&d).map(drop)) {
        Caught::Done(Err(_)) => {}
        Caught::Done(Ok(())) => return viol("checkpoint", format!("{what}: a checkpoint that doesn't exist can be opened")),
        _ => return viol("panic", format!("{what}: opening a checkpoint that doesn't exist")),
    }
    if FsPath::new(&d).join("CURRENT").exists() {
        return viol("checkpoint-dirs", format!("{what}: opening a checkpoint that doesn't exist made one"));
    }
    Ok(())
}

pub fn take(s: &mut Sim, i: usize, faults: &[(u32, Fault)]) -> V {
    if s.nested() || i >= SLOTS {
        return Ok(());
    }
    let d = dir(s, i);
    let had = s.cps[i].is_some();
    let new = Cp { m: s.m.clone(), digest: s.digest, hist: vec![(s.digest, s.m.clone())], partial: vec![] };
    let db = s.node.db();
    s.begin(faults);
    let res = guard(|| db.create_checkpoint(&d));
    let (_, failed, crash) = s.end()?;
    match res {
        Caught::Done(Ok(())) => {
            if had {
                return viol("checkpoint", "a checkpoint was made in the place of another one");
            }
            s.cps[i] = Some(new);
            s.st.ev("checkpoints");
        }
        Caught::Done(Err(e)) => {
            if !had && !failed {
                return viol("checkpoint", format!("a checkpoint cannot be made: {e}"));
            }
            s.st.ev("checkpoints refused");
            if !had {
                absent(s, i, "after a checkpoint that failed")?;
            }
        }
        Caught::Panicked(p) => return viol("panic", format!("making a checkpoint: {p}")),
        Caught::Crashed => {
            if !had && FsPath::new(&d).join("CURRENT").exists() {
                s.cps[i] = Some(new);
            }
            s.st.ev("crashes while making a checkpoint");
            s.crash(crash.and_then(|c| c.1), &[])?;
            dirs(s, "after a crash while making a checkpoint")?;
            return if s.cps[i].is_some() { look(s, i, &[]) } else { Ok(()) };
        }
    }
    s.unchanged("checkpoint", "making a checkpoint")?;
    dirs(s, "after making a checkpoint")
}

/// open it and hand it out as a database of its own
fn open(s: &mut Sim, i: usize, faults: &[(u32, Fault)]) -> V<Sim> {
    let mut node = Node::new(s.world.clone(), &dir(s, i), crate::sim::SLOTS);
    node.cp = true;
    s.begin(faults);
    let res = guard(|| node.open());
    let (_, failed, _) = s.end()?;
    match res {
        Caught::Done(Ok(())) => {}
        Caught::Done(Err(e)) if !failed => return viol("checkpoint", format!("a checkpoint cannot be opened: {e}")),
        Caught::Panicked(p) => return viol("panic", format!("opening a checkpoint: {p}")),
        // of the checkpoint's own process: nothing was lost
        _ => {
            node.close();
            let d = dir(s, i);
            s.world.crash_process(&d);
            if let Err(e) = node.open() {
                return viol("checkpoint", format!("a checkpoint cannot be opened after a failure: {e}"));
            }
        }
    }
    let c = s.cps[i].as_ref().unwrap();
    let (m, digest) = (c.m.clone(), c.digest);
    let (hist, partial) = (c.hist.clone(), c.partial.clone());
    let mut t = s.with_node(node, m);
    (t.hist, t.partial) = (hist, partial);
    if t.digest != digest {
        return viol("checkpoint", "opening a checkpoint changed it");
    }
    Ok(t)
}

pub fn look(s: &mut Sim, i: usize, faults: &[(u32, Fault)]) -> V {
    if s.nested() || i >= SLOTS {
        return Ok(());
    }
    if s.cps[i].is_none() {
        return absent(s, i, "with no checkpoint there");
    }
    let mut t = open(s, i, faults)?;
    let res = t.full(None);
    // it is in use: not to be deleted
    let d = t.node.dir.clone();
    let del = match guard(|| GroveDb::delete_checkpoint(&d)) {
        Caught::Done(Err(_)) => Ok(()),
        Caught::Done(Ok(())) => viol("checkpoint", "a checkpoint that is open was deleted"),
        _ => viol("panic", "deleting a checkpoint that is open"),
    };
    t.node.close();
    res.map_err(|v| Viol { class: v.class, msg: format!("in checkpoint {i}: {}", v.msg) })?;
    del?;
    s.st.ev("checkpoints compared");
    s.unchanged("checkpoint", "opening a checkpoint")?;
    dirs(s, "after opening a checkpoint")
}

pub fn write(s: &mut Sim, i: usize, w: &W, faults: &[(u32, Fault)]) -> V {
    if s.nested() || s.cps.get(i).is_none_or(|c| c.is_none()) {
        return Ok(());
    }
    let mut t = open(s, i, &[])?;
    let res = t.direct(w, faults).and_then(|_| if t.over { Ok(()) } else { t.full(None) });
    t.node.close();
    s.cps[i] = Some(Cp { m: t.m.clone(), digest: t.now(), hist: t.hist.clone(), partial: t.partial.clone() });
    let over = t.over;
    for (k, n) in std::mem::take(&mut t.st.faults) {
        *s.st.faults.entry(format!("{k} in a checkpoint")).or_default() += n;
    }
    drop(t);
    res.map_err(|v| Viol { class: v.class, msg: format!("in checkpoint {i}: {}", v.msg) })?;
    s.st.ev("writes to checkpoints");
    s.unchanged("checkpoint", "a write to a checkpoint")?;
    dirs(s, "after a write to a checkpoint")?;
    if over {
        // what it holds now is not specified
        delete(s, i, &[])?;
    }
    Ok(())
}

pub fn sync(s: &mut Sim, i: usize, p: &crate::sync::SyncPlan) -> V {
    if s.nested() || s.cps.get(i).is_none_or(|c| c.is_none()) {
        return Ok(());
    }
    let mut t = open(s, i, &[])?;
    let res = crate::sync::sync(&mut t, p);
    t.node.close();
    for (k, n) in std::mem::take(&mut t.st.events) {
        *s.st.events.entry(k).or_default() += n;
    }
    res?;
    s.unchanged("checkpoint", "synchronising from a checkpoint")?;
    dirs(s, "after synchronising from a checkpoint")
}

pub fn delete(s: &mut Sim, i: usize, faults: &[(u32, Fault)]) -> V {
    if s.nested() || i > SLOTS {
        return Ok(());
    }
    let d = dir(s, i);
    let had = i < SLOTS && s.cps[i].is_some();
    s.begin(faults);
    let res = guard(|| GroveDb::delete_checkpoint(&d));
    let (_, failed, crash) = s.end()?;
    match res {
        Caught::Done(Ok(())) => {
            if !had {
                return viol("checkpoint", "something that is no checkpoint was deleted");
            }
            s.cps[i] = None;
            s.st.ev("checkpoints deleted");
        }
        Caught::Done(Err(e)) => {
            if had && !failed {
                return viol("checkpoint", format!("a checkpoint cannot be deleted: {e}"));
            }
            s.st.ev("deletions refused");
        }
        Caught::Panicked(p) => return viol("panic", format!("deleting a checkpoint: {p}")),
        Caught::Crashed => {
            s.world.crash_process(&d);
            s.crash(crash.and_then(|c| c.1), &[])?;
        }
    }
    s.unchanged("checkpoint", "deleting a checkpoint")?;
    dirs(s, "after deleting a checkpoint")?;
    if i < SLOTS && s.cps[i].is_none() {
        absent(s, i, "after deleting it")?;
    }
    Ok(())
}
