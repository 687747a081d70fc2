//! Drives one real optimizer run (`async_launch::launch`) poll by poll. The objective function is
//! a stand-in whose evaluations complete when and how the tape says; everything observable is
//! recorded in one event log that the per-property oracles judge.

use crate::engine::{catch, Ctx, HARNESS};
use crate::model::*;
use crate::tape::{hash_str, mix, Tape};
use async_trait::async_trait;
use cambrian::async_launch;
use cambrian::error::Error;
use cambrian::message::Command;
use cambrian::meta::{AlgoConfigBuilder, AsyncObjectiveFunction};
use cambrian::spec::{Node, Spec};
use futures::channel::{mpsc, oneshot};
use futures::future::Either;
use futures::Future;
use serde_json::{json, Value as J};
use std::fmt::Write;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Value(f64),
    Reject,
    Fail(String),
}

impl Out {
    pub fn is_failure(&self) -> bool {
        match self {
            Out::Value(v) => !v.is_finite(),
            Out::Reject => false,
            Out::Fail(_) => true,
        }
    }
    pub fn accepted(&self) -> Option<f64> {
        match self {
            Out::Value(v) if v.is_finite() => Some(*v),
            _ => None,
        }
    }
}

/// How objective values are made.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    /// Few dyadic values, many ties.
    Dyadic,
    /// Magnitudes from 5e-324 to 1e300, negative zero.
    Extreme,
    /// A pure function of the parameter set.
    OfValue,
    /// Later is better / worse.
    Improving,
    Worsening,
    /// All the same.
    Constant,
    /// A few units in the last place around one number, with fractions beyond 1e15 among them.
    Close,
    /// -|first real| (rewards large steps) or |first real| (rewards small ones).
    Grow,
    Shrink,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub spec: Node,
    pub guess: Option<J>,
    pub sample: usize,
    pub nc: usize,
    pub budget: Option<usize>,
    pub target: Option<f64>,
    pub style: Style,
    /// The driver terminates the run after so many starts.
    pub cap: usize,
    /// Chances in 1/1000.
    pub p_immediate: u64,
    pub p_reject: u64,
    pub p_fail: u64,
    pub p_nonfinite: u64,
    pub p_terminate: u64,
    /// Chance of a further terminate command at every step after the first one.
    pub p_again: u64,
    /// The terminate command is there before the run starts.
    pub early: bool,
    /// An evaluation that does not end by itself when told to abort.
    pub p_stubborn: u64,
    /// An evaluation that answers the abort with something other than a rejection.
    pub p_abort_value: u64,
    pub p_batch: u64,
    pub report_cap: usize,
    pub rt_seed: u64,
    /// Which numbers `Style::Close` is about.
    pub close: u64,
}

impl Cfg {
    pub fn new(spec: Node) -> Cfg {
        Cfg {
            spec,
            guess: None,
            sample: 1,
            nc: 1,
            budget: None,
            target: None,
            style: Style::Dyadic,
            cap: 60,
            p_immediate: 0,
            p_reject: 0,
            p_fail: 0,
            p_nonfinite: 0,
            p_terminate: 0,
            p_again: 0,
            early: false,
            p_stubborn: 0,
            p_abort_value: 0,
            p_batch: 0,
            report_cap: 16,
            rt_seed: 0,
            close: 0,
        }
    }
    pub fn describe(&self) -> String {
        let mut s = format!(
            "spec {} | sample size {}, {} concurrent, budget {:?}, target {:?}",
            to_yaml(&self.spec),
            self.sample,
            self.nc,
            self.budget,
            self.target
        );
        if let Some(g) = &self.guess {
            let _ = write!(s, ", initial guess {}", g);
        }
        s
    }
}

#[derive(Clone, Debug)]
pub struct Eval {
    pub id: usize,
    pub seed: u64,
    pub value: J,
    pub stubborn: bool,
    pub told_at_entry: bool,
    pub told: bool,
    pub done: Option<Out>,
    pub dropped: bool,
    /// position of the Done event among all Done events
    pub done_order: usize,
    pub start_round: usize,
    pub done_round: usize,
}

#[derive(Clone, Debug)]
pub struct Item {
    pub id: usize,
    pub seed: u64,
    pub value: J,
    pub obj: Option<f64>,
    pub meta: Option<[f64; 4]>,
    pub eval_time_ok: bool,
}

#[derive(Clone, Debug)]
pub enum Evt {
    Start(usize),
    Told(usize),
    Done(usize),
    Dropped(usize),
    Deliver(usize, Out),
    Terminate,
    /// A further terminate command.
    Again,
    Item(usize),
    Quiet(Snap),
    End,
}

#[derive(Clone, Debug)]
pub struct Snap {
    pub round: usize,
    pub in_flight: Vec<usize>,
    /// All of them have been told to abort.
    pub told: usize,
    pub started: usize,
    pub processed: usize,
}

#[derive(Clone, Debug)]
pub enum Res {
    Report { best: f64, value: J, completed: usize, rejected: usize },
    Error(String),
    NoIndividuals,
    /// Quiescent with nothing in flight and not finished.
    Stuck(String),
    Panic(String),
}

#[derive(Clone)]
pub struct Run {
    pub cfg: Cfg,
    pub evals: Vec<Eval>,
    pub items: Vec<Item>,
    pub log: Vec<Evt>,
    pub rounds: usize,
    pub max_active: usize,
    pub same_id_twice: Option<usize>,
    pub res: Res,
    /// Round in which the run ended.
    pub end_round: usize,
    pub terminated_in: Option<usize>,
    /// All evaluations told to abort while still running, at the end.
    pub in_flight_at_end: usize,
}

struct World {
    tape: Tape,
    cfg: Cfg,
    evals: Vec<Eval>,
    tx: Vec<Option<oneshot::Sender<Out>>>,
    log: Vec<Evt>,
    /// Evaluations in progress, in the order of their starts.
    running: Vec<usize>,
    max_active: usize,
    same_id_twice: Option<usize>,
    done: usize,
    round: usize,
    replayed: Option<Box<dyn FnMut(usize, &J) -> Out + Send>>,
}

type Shared = Arc<Mutex<World>>;

fn lock(w: &Shared) -> MutexGuard<'_, World> {
    w.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn first_real(j: &J) -> f64 {
    match j {
        J::Number(n) => n.as_f64().unwrap_or(0.0),
        J::Array(a) => a.iter().map(first_real).find(|x| *x != 0.0).unwrap_or(0.0),
        J::Object(m) => m.values().map(first_real).find(|x| *x != 0.0).unwrap_or(0.0),
        _ => 0.0,
    }
}

impl World {
    fn outcome(&mut self, idx: usize) -> Out {
        let c = &self.cfg;
        let (pr, pf, pn) = (c.p_reject, c.p_fail, c.p_nonfinite);
        let k = self.tape.below(1000);
        // failures and rejections at the high end so that 0 stays an ordinary value
        if k >= 1000 - pf {
            return Out::Fail(format!("failure of evaluation #{}", idx));
        }
        if k >= 1000u64.saturating_sub(pf + pn) {
            return Out::Value(*self.tape.pick(&[f64::INFINITY, f64::NAN, f64::NEG_INFINITY]));
        }
        if k >= 1000u64.saturating_sub(pf + pn + pr) {
            return Out::Reject;
        }
        if let Some(f) = &mut self.replayed {
            return f(idx, &self.evals[idx].value);
        }
        Out::Value(match c.style {
            Style::Dyadic => self.tape.below(16) as f64 / 4.0,
            Style::Extreme => match self.tape.below(12) {
                0 => 0.0,
                1 => -0.0,
                2 => 1e300,
                3 => -1e300,
                4 => 5e-324,
                5 => -5e-324,
                6 => 1.0,
                7 => 1e-300,
                8 => (self.tape.unit() - 0.5) * 1e300,
                9 => 9.99e299,
                10 => 1.0 + f64::EPSILON,
                _ => -1.0,
            },
            Style::OfValue => {
                let h = hash_str(&self.evals[idx].value.to_string());
                (h % 4096) as f64 / 64.0
            }
            Style::Improving => 1000.0 - idx as f64,
            Style::Worsening => idx as f64,
            Style::Constant => 1.0,
            Style::Close => {
                let base = [1.0, -1.0, 1e15 + 0.5, 123456789.125, 3e-5, -7e200][c.close as usize % 6];
                let k = self.tape.below(7);
                (0..k).fold(base, |v: f64, _| if c.close & 64 == 0 { v.next_up() } else { v.next_down() })
            }
            Style::Grow => -first_real(&self.evals[idx].value).abs().min(1e300),
            Style::Shrink => first_real(&self.evals[idx].value).abs().min(1e300),
        })
    }
}

struct Guard {
    w: Shared,
    idx: usize,
    live: bool,
}

impl Guard {
    fn finish(&mut self, out: Out) -> Result<Option<f64>, Error> {
        let mut w = lock(&self.w);
        let w = &mut *w;
        self.live = false;
        w.running.retain(|i| *i != self.idx);
        let e = &mut w.evals[self.idx];
        e.done = Some(out.clone());
        e.done_order = w.done;
        e.done_round = w.round;
        w.done += 1;
        w.log.push(Evt::Done(self.idx));
        match out {
            Out::Value(v) => Ok(Some(v)),
            Out::Reject => Ok(None),
            Out::Fail(m) => Err(Error::Io(std::io::Error::new(std::io::ErrorKind::Other, m))),
        }
    }
    fn told(&self) {
        let mut w = lock(&self.w);
        if !w.evals[self.idx].told {
            w.evals[self.idx].told = true;
            w.log.push(Evt::Told(self.idx));
        }
    }
}

impl Drop for Guard {
    fn drop(&mut self) {
        if self.live {
            let mut w = lock(&self.w);
            w.running.retain(|i| *i != self.idx);
            w.evals[self.idx].dropped = true;
            w.log.push(Evt::Dropped(self.idx));
        }
    }
}

struct Mock {
    w: Shared,
}

#[async_trait]
impl AsyncObjectiveFunction for Mock {
    async fn evaluate(
        &self,
        value: J,
        mut abort: async_broadcast::Receiver<()>,
        seed: u64,
        individual_id: usize,
    ) -> Result<Option<f64>, Error> {
        let told_at_entry = !matches!(abort.try_recv(), Err(async_broadcast::TryRecvError::Empty));
        let (tx, rx) = oneshot::channel::<Out>();
        let (idx, immediate, on_abort) = {
            let mut w = lock(&self.w);
            let w = &mut *w;
            let idx = w.evals.len();
            if w.running.iter().any(|i| w.evals[*i].id == individual_id) {
                w.same_id_twice.get_or_insert(individual_id);
            }
            let stubborn = w.cfg.p_stubborn > 0 && w.tape.chance(w.cfg.p_stubborn, 1000);
            w.evals.push(Eval {
                id: individual_id,
                seed,
                value,
                stubborn,
                told_at_entry,
                told: told_at_entry,
                done: None,
                dropped: false,
                done_order: usize::MAX,
                start_round: w.round,
                done_round: usize::MAX,
            });
            w.tx.push(Some(tx));
            w.log.push(Evt::Start(idx));
            w.running.push(idx);
            w.max_active = w.max_active.max(w.running.len());
            let room = w.evals.len() < w.cfg.cap;
            let immediate = if w.cfg.p_immediate > 0 && room && w.tape.chance(w.cfg.p_immediate, 1000) {
                Some(w.outcome(idx))
            } else {
                None
            };
            let on_abort = if w.cfg.p_abort_value > 0 && w.tape.chance(w.cfg.p_abort_value, 1000) {
                w.outcome(idx)
            } else {
                Out::Reject
            };
            (idx, immediate, on_abort)
        };
        let mut g = Guard { w: self.w.clone(), idx, live: true };
        if let Some(o) = immediate {
            return g.finish(o);
        }
        let stubborn = lock(&self.w).evals[idx].stubborn;
        let mut rx = rx;
        let mut told = told_at_entry;
        loop {
            if told {
                if !stubborn {
                    return g.finish(on_abort);
                }
                return match rx.await {
                    Ok(o) => g.finish(o),
                    Err(_) => futures::future::pending().await,
                };
            }
            let sig = abort.recv();
            futures::pin_mut!(sig);
            match futures::future::select(&mut rx, sig).await {
                Either::Left((Ok(o), _)) => return g.finish(o),
                Either::Left((Err(_), _)) => return futures::future::pending().await,
                Either::Right(_) => {
                    told = true;
                    g.told();
                }
            }
        }
    }
}

struct Flag(AtomicBool);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

fn error_text(e: &Error) -> String {
    match e {
        Error::Io(e) => e.to_string(),
        Error::ObjFuncValMustBeFinite => "non-finite".into(),
        e => format!("other error: {}", e),
    }
}

/// The text by which a failing outcome is recognised in the result.
pub fn failure_text(o: &Out) -> String {
    match o {
        Out::Fail(m) => m.clone(),
        _ => "non-finite".into(),
    }
}

/// Runs one optimizer run to its end under the tape's control.
pub fn run(tape: &mut Tape, cfg: &Cfg) -> Result<Run, String> {
    run_with(tape, cfg, None)
}

pub fn run_with(
    tape: &mut Tape,
    cfg: &Cfg,
    replayed: Option<Box<dyn FnMut(usize, &J) -> Out + Send>>,
) -> Result<Run, String> {
    let w = world(tape, cfg, replayed);
    let mut items = Vec::new();
    let mut terminated_in = None;
    let r = catch(AssertUnwindSafe(|| drive(&w, cfg, &mut items, &mut terminated_in)));
    result(&w, tape, cfg, items, terminated_in, r)
}

fn world(tape: &mut Tape, cfg: &Cfg, replayed: Option<Box<dyn FnMut(usize, &J) -> Out + Send>>) -> Shared {
    Arc::new(Mutex::new(World {
        tape: std::mem::replace(tape, Tape::replay(Vec::new())),
        cfg: cfg.clone(),
        evals: Vec::new(),
        tx: Vec::new(),
        log: Vec::new(),
        running: Vec::new(),
        max_active: 0,
        same_id_twice: None,
        done: 0,
        round: 0,
        replayed,
    }))
}

type Driven = Result<Result<Res, String>, String>;

fn result(w: &Shared, tape: &mut Tape, cfg: &Cfg, items: Vec<Item>, terminated_in: Option<usize>, r: Driven) -> Result<Run, String> {
    let mut g = lock(w);
    *tape = std::mem::replace(&mut g.tape, Tape::replay(Vec::new()));
    let res = match r {
        Ok(Ok(res)) => res,
        Ok(Err(e)) => return Err(e),
        Err(e) if e.starts_with(HARNESS) => return Err(e),
        Err(e) => Res::Panic(e),
    };
    let at_end = g
        .evals
        .iter()
        .filter(|e| e.dropped)
        .count();
    Ok(Run {
        cfg: cfg.clone(),
        evals: std::mem::take(&mut g.evals),
        items,
        log: std::mem::take(&mut g.log),
        rounds: g.round,
        max_active: g.max_active,
        same_id_twice: g.same_id_twice,
        res,
        end_round: g.round,
        terminated_in,
        in_flight_at_end: at_end,
    })
}


/// Two runs in one thread that take turns, one event each.
pub fn run_pair(a: (&mut Tape, &Cfg), b: (&mut Tape, &Cfg)) -> Result<(Run, Run), String> {
    let (wa, wb) = (world(a.0, a.1, None), world(b.0, b.1, None));
    let (mut ia, mut ib) = (Vec::new(), Vec::new());
    let (mut ta, mut tb) = (None, None);
    let rt = runtime(a.1)?;
    let r = catch(AssertUnwindSafe(|| rt.block_on(async { tokio::join!(steps(&wa, a.1, &mut ia, &mut ta, true), steps(&wb, b.1, &mut ib, &mut tb, true)) })));
    let (ra, rb) = match r {
        Ok((ra, rb)) => (Ok(ra), Ok(rb)),
        Err(m) => (Err(m.clone()), Err(m)),
    };
    Ok((result(&wa, a.0, a.1, ia, ta, ra)?, result(&wb, b.0, b.1, ib, tb, rb)?))
}

fn runtime(cfg: &Cfg) -> Result<tokio::runtime::Runtime, String> {
    let mut b = tokio::runtime::Builder::new_current_thread();
    b.rng_seed(tokio::runtime::RngSeed::from_bytes(&cfg.rt_seed.to_le_bytes()));
    b.build().map_err(|e| format!("{}runtime: {}", HARNESS, e))
}

fn drive(w: &Shared, cfg: &Cfg, items: &mut Vec<Item>, terminated_in: &mut Option<usize>) -> Result<Res, String> {
    runtime(cfg)?.block_on(steps(w, cfg, items, terminated_in, false))
}

async fn steps(w: &Shared, cfg: &Cfg, items: &mut Vec<Item>, terminated_in: &mut Option<usize>, gives_way: bool) -> Result<Res, String> {
    {
        let mut ab = AlgoConfigBuilder::new();
        let algo = ab
            .individual_sample_size(cfg.sample)
            .num_concurrent(cfg.nc)
            .build()
            .map_err(|e| format!("{}config: {}", HARNESS, e))?;
        let (mut cmd_tx, cmd_rx) = mpsc::channel::<Command>(16);
        let (rep_tx, mut rep_rx) = mpsc::channel(cfg.report_cap);
        let fut = async_launch::launch(
            Spec(cfg.spec.clone()),
            Mock { w: w.clone() },
            algo,
            cmd_rx,
            rep_tx,
            cfg.budget,
            cfg.target,
            cfg.guess.clone(),
        );
        let mut fut: Pin<Box<dyn Future<Output = _>>> = Box::pin(fut);
        let flag = Arc::new(Flag(AtomicBool::new(false)));
        let waker = Waker::from(flag.clone());
        let mut send_terminate = move || cmd_tx.try_send(Command::Terminate).map_err(|e| format!("{}command: {}", HARNESS, e));
        let mut commands = 0;
        if cfg.early {
            *terminated_in = Some(0);
            lock(w).log.push(Evt::Terminate);
            send_terminate()?;
        }
        loop {
            // let everything that can run, run
            let mut polls = 0u32;
            let mut end = None;
            loop {
                flag.0.store(false, Ordering::SeqCst);
                let mut cx = Context::from_waker(&waker);
                if let Poll::Ready(r) = fut.as_mut().poll(&mut cx) {
                    end = Some(r);
                }
                while let Ok(it) = rep_rx.try_recv() {
                    lock(w).log.push(Evt::Item(items.len()));
                    items.push(Item {
                        id: it.individual_id,
                        seed: it.seed,
                        value: it.input_val.clone(),
                        obj: it.obj_func_val,
                        meta: it.meta_params_used.as_ref().map(|m| {
                            [
                                m.crossover_params.crossover_prob,
                                m.crossover_params.selection_pressure,
                                m.mutation_params.mutation_prob,
                                m.mutation_params.mutation_scale,
                            ]
                        }),
                        eval_time_ok: it.eval_time.as_secs() < 3600,
                    });
                }
                if end.is_some() || !flag.0.load(Ordering::SeqCst) {
                    break;
                }
                polls += 1;
                if polls > 200_000 {
                    return Ok(Res::Stuck("it keeps waking itself up without progress".into()));
                }
                tokio::task::yield_now().await;
            }
            if let Some(r) = end {
                drop(fut);
                let mut g = lock(w);
                g.log.push(Evt::End);
                return Ok(match r {
                    Ok(rep) => Res::Report {
                        best: rep.best_seen.obj_func_val,
                        value: rep.best_seen.value,
                        completed: rep.num_obj_func_eval_completed,
                        rejected: rep.num_obj_func_eval_rejected,
                    },
                    Err(Error::NoIndividuals) => Res::NoIndividuals,
                    Err(e) => Res::Error(error_text(&e)),
                });
            }
            if gives_way {
                tokio::task::yield_now().await;
            }
            let mut g = lock(w);
            let g = &mut *g;
            let in_flight: Vec<usize> = g.running.clone();
            let snap = Snap {
                round: g.round,
                told: in_flight.iter().filter(|i| g.evals[**i].told).count(),
                in_flight: in_flight.clone(),
                started: g.evals.len(),
                processed: items.len(),
            };
            g.log.push(Evt::Quiet(snap));
            let waiting: Vec<usize> = in_flight.into_iter().filter(|i| g.tx[*i].is_some()).collect();
            let can_term = terminated_in.is_none();
            if waiting.is_empty() {
                return Ok(Res::Stuck("nothing is in flight, nothing can happen any more, and the run has not returned".into()));
            }
            g.round += 1;
            if g.round > 40_000 {
                return Ok(Res::Stuck("40000 steps".into()));
            }
            let over = g.evals.len() >= cfg.cap;
            let term = can_term
                && (if over { g.tape.chance(1, 2) || g.round > 2 * cfg.cap + 50 } else { cfg.p_terminate > 0 && g.tape.chance(cfg.p_terminate, 1000) });
            if term {
                *terminated_in = Some(g.round);
                g.log.push(Evt::Terminate);
                send_terminate()?;
                // usually nothing else happens at the same time
                if !g.tape.chance(1, 4) {
                    continue;
                }
            }
            if !can_term && cfg.p_again > 0 && commands < 8 && g.tape.chance(cfg.p_again, 1000) {
                commands += 1;
                g.log.push(Evt::Again);
                send_terminate()?;
                if !g.tape.chance(1, 4) {
                    continue;
                }
            }
            let k = if waiting.len() > 1 && cfg.p_batch > 0 && g.tape.chance(cfg.p_batch, 1000) {
                g.tape.usize(1, waiting.len())
            } else {
                1
            };
            let mut waiting = waiting;
            for _ in 0..k {
                let i = g.tape.below(waiting.len() as u64) as usize;
                let idx = waiting.remove(i);
                let o = g.outcome(idx);
                g.log.push(Evt::Deliver(idx, o.clone()));
                if let Some(tx) = g.tx[idx].take() {
                    tx.send(o).ok();
                }
            }
        }
    }
}

impl Run {
    pub fn describe(&self) -> String {
        let mut s = self.cfg.describe();
        let mut lines = Vec::new();
        for e in &self.log {
            lines.push(match e {
                Evt::Start(i) => {
                    let e = &self.evals[*i];
                    format!(
                        "start #{}: individual {}, seed {}, {}{}",
                        i,
                        e.id,
                        e.seed,
                        e.value,
                        if e.told_at_entry { " (abort already requested)" } else { "" }
                    )
                }
                Evt::Told(i) => format!("told to abort #{}", i),
                Evt::Done(i) => format!("ended #{}: {:?}", i, self.evals[*i].done.as_ref().unwrap()),
                Evt::Dropped(i) => format!("abandoned #{}", i),
                Evt::Deliver(i, o) => format!("  outcome ready for #{}: {:?}", i, o),
                Evt::Terminate => "  terminate command sent".into(),
                Evt::Again => "  terminate command sent again".into(),
                Evt::Item(i) => {
                    let it = &self.items[*i];
                    format!("record: individual {}, seed {}, result {:?}", it.id, it.seed, it.obj)
                }
                Evt::Quiet(q) => format!("  -- quiet: in flight {:?}", q.in_flight),
                Evt::End => "run returned".into(),
            });
        }
        let n = lines.len();
        if n > 120 {
            lines.drain(40..n - 70);
            lines.insert(40, format!("... {} lines ...", n - 110));
        }
        let _ = write!(s, "\n{}\nresult: {:?}", lines.join("\n"), self.res);
        s
    }

    pub fn err(&self, m: impl AsRef<str>) -> String {
        format!("{}\n{}", m.as_ref(), self.describe())
    }

    pub fn fail<T>(&self, m: impl AsRef<str>) -> Result<T, String> {
        Err(self.err(m))
    }

    pub fn initial(&self) -> J {
        json_of(&init_value(&self.cfg.spec))
    }

    /// Evaluations in the order in which their results were produced.
    pub fn done(&self) -> Vec<&Eval> {
        let mut v: Vec<&Eval> = self.evals.iter().filter(|e| e.done.is_some()).collect();
        v.sort_by_key(|e| e.done_order);
        v
    }

    pub fn failures(&self) -> Vec<&Eval> {
        self.done().into_iter().filter(|e| e.done.as_ref().unwrap().is_failure()).collect()
    }

    /// Round of the first failure observed before any termination request.
    pub fn first_failure(&self) -> Option<&Eval> {
        self.failures()
            .into_iter()
            .next()
            .filter(|e| self.terminated_in.map_or(true, |r| e.done_round < r))
    }

    /// The first evaluation whose result brings the best completed sample to the target.
    pub fn target_hit(&self) -> Option<&Eval> {
        let target = self.cfg.target?;
        let mut got: std::collections::BTreeMap<usize, Vec<f64>> = Default::default();
        for e in self.done() {
            if let Some(v) = e.done.as_ref().unwrap().accepted() {
                let s = got.entry(e.id).or_default();
                s.push(v);
                if s.len() == self.cfg.sample && s.iter().sum::<f64>() / (s.len() as f64) <= target {
                    return Some(e);
                }
            }
        }
        None
    }

    pub fn individuals(&self) -> usize {
        let ids: std::collections::BTreeSet<usize> =
            self.evals.iter().filter(|e| e.done.as_ref().and_then(|o| o.accepted()).is_some()).map(|e| e.id).collect();
        ids.len()
    }

    pub fn accepted(&self) -> usize {
        self.evals.iter().filter(|e| e.done.as_ref().and_then(|o| o.accepted()).is_some()).count()
    }

    pub fn rejected(&self) -> usize {
        self.evals.iter().filter(|e| e.done == Some(Out::Reject)).count()
    }

    pub fn done_in(&self, round: usize) -> usize {
        self.evals.iter().filter(|e| e.done_round == round && e.done.is_some()).count()
    }

    /// Panics and hangs.
    pub fn ended(&self) -> Result<(), String> {
        match &self.res {
            Res::Panic(m) => self.fail(m),
            Res::Stuck(m) => self.fail(format!("the run hangs: {}", m)),
            _ => Ok(()),
        }
    }

    /// Trace for comparisons: what was evaluated, in which order, and the final report.
    pub fn trace(&self) -> String {
        let mut s = String::new();
        for (i, e) in self.evals.iter().enumerate() {
            let _ = writeln!(s, "{} {} {} {}", i, e.id, e.seed, e.value);
        }
        for e in self.done() {
            let _ = writeln!(s, "{} {:?}", e.seed, e.done);
        }
        for it in &self.items {
            let _ = writeln!(s, "{} {} {} {:?} {:?}", it.id, it.seed, it.value, it.obj, it.meta);
        }
        let _ = writeln!(s, "{:?}", self.res);
        s
    }

    pub fn fingerprint(&self) -> String {
        format!("{:x}", mix(hash_str(&self.trace()), hash_str(&self.cfg.describe())))
    }

    pub fn sample_json(&self) -> J {
        let seq: Vec<J> = self
            .log
            .iter()
            .filter_map(|e| match e {
                Evt::Start(i) => Some(json!(format!("start #{} id {} seed {}", i, self.evals[*i].id, self.evals[*i].seed))),
                Evt::Done(i) => Some(json!(format!("end #{} {:?}", i, self.evals[*i].done.as_ref().unwrap()))),
                Evt::Terminate => Some(json!("terminate")),
                Evt::Again => Some(json!("terminate again")),
                Evt::Told(i) => Some(json!(format!("abort #{}", i))),
                Evt::Dropped(i) => Some(json!(format!("abandon #{}", i))),
                _ => None,
            })
            .take(60)
            .collect();
        json!({"config": self.cfg.describe(), "events": seq, "result": format!("{:?}", self.res)})
    }

    pub fn labels(&self, ctx: &mut Ctx) {
        ctx.num("evaluations started", self.evals.len() as u64);
        if self.terminated_in.is_some() {
            ctx.label("terminated");
        }
        if self.log.iter().any(|e| matches!(e, Evt::Again)) {
            ctx.label("terminated more than once");
        }
        if self.max_active > 64 {
            ctx.label("more than 64 in progress");
        }
        if self.target_hit().is_some() {
            ctx.label("target reached");
        }
        if !self.failures().is_empty() {
            ctx.label("with a failure");
        }
        if self.rejected() > 0 {
            ctx.label("with a rejection");
        }
        if self.cfg.sample > 1 {
            ctx.label("sample size > 1");
            if self.evals.len() > self.evals.iter().map(|e| e.id).collect::<std::collections::BTreeSet<_>>().len() {
                ctx.label("with re-evaluations");
            }
        }
        if self.individuals() > 100 {
            ctx.label("population overflows");
        }
        match &self.res {
            Res::Report { .. } => ctx.label("ends with a report"),
            Res::Error(_) => ctx.label("ends with an error"),
            Res::NoIndividuals => ctx.label("ends without individuals"),
            _ => {}
        }
    }
}
