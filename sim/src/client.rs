//! The clients: what they send, and what they make of the answers.
use crate::bytes::Bytes;
use crate::epoch::{ctx, CH_CLIENT, CH_STOP};
use crate::http::{self, Conn, Fail, Req};
use crate::kern::*;
use crate::mval::MVal;
use crate::plan::*;
use crate::result::*;
use sourisdb::client::{AsyncClient, ClientError, CreationResult, SyncClient};
use sourisdb::store::Store;
use sourisdb::utilities::cursor::Cursor;
use sourisdb::values::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

pub const AUDITOR: usize = 1000;

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

static mut LINGER: u64 = 0;
static mut LINGER_HALF: u64 = 0;
pub fn lingering() -> u64 {
    unsafe { LINGER }
}
pub fn lingering_half() -> u64 {
    unsafe { LINGER_HALF }
}

pub fn begin(client: usize, op: &Op) -> usize {
    let c = ctx();
    let inv = k().next_seq();
    let inv_t = k().now;
    k().tr(|| format!("client {client}: {}", op_text(op)));
    c.recs.push(Rec {
        client,
        op: op.clone(),
        inv,
        inv_t,
        ret: None,
        out: Out::Lost("pending".into()),
        not_sent: false,
        maybe_twice: false,
    });
    c.recs.len() - 1
}
pub fn end(i: usize, out: Out, not_sent: bool, twice: bool) {
    let ret = k().next_seq();
    let t = k().now;
    k().tr(|| format!("  answer to {}: {}", i, out_text(&out)));
    let acked = matches!(&out, Out::Resp(s, _) if *s < 500) || matches!(out, Out::OneOf(_));
    let r = &mut ctx().recs[i];
    r.ret = Some((ret, t));
    r.out = out;
    r.not_sent = not_sent;
    r.maybe_twice = twice;
    if acked {
        k().acks += 1;
        k().notify(CH_ACK);
    }
}
pub fn op_text(op: &Op) -> String {
    match op {
        Op::AddKv { db, key, val, create, over } => {
            format!("add_kv {db:?} {key:?} = {} create={create} over={over}", val.short())
        }
        Op::AddContent { db, over, content } => {
            let s: Vec<String> = content.iter().take(6).map(|(kx, v)| format!("{kx:?}={}", v.short())).collect();
            format!("add_db_with_content {db:?} over={over} {{{}}} ({} keys)", s.join(", "), content.len())
        }
        Op::Raw { method, target, body, .. } => format!("raw {method} {target} body {} bytes", body.0.len()),
        Op::Junk { bytes, .. } => format!("junk {} bytes", bytes.0.len()),
        o => format!("{o:?}"),
    }
}
pub fn out_text(o: &Out) -> String {
    match o {
        Out::Resp(s, Body::Store(c)) => {
            let v: Vec<String> = c.iter().take(8).map(|(kx, v)| format!("{kx:?}={}", v.short())).collect();
            format!("{s} store {{{}}} ({} keys)", v.join(", "), c.len())
        }
        Out::Resp(s, Body::Val(v)) => format!("{s} {}", v.short()),
        o => {
            let t = format!("{o:?}");
            t.chars().take(300).collect()
        }
    }
}

pub fn of_store(s: &Store) -> Content {
    s.iter().map(|(a, b)| (a.clone(), MVal::of(b))).collect()
}
pub fn to_store(c: &Content) -> Store {
    Store::new(c.iter().map(|(a, b)| (a.clone(), b.to_value())))
}
fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_text(&*e))
}
fn decode_value(b: &[u8]) -> Body {
    let r = quiet(|| {
        let mut c = Cursor::new(&b);
        Value::deser(&mut c, None).map(|v| MVal::of(&v)).map_err(|e| format!("{e:?}"))
    });
    match r {
        Ok(Ok(v)) => Body::Val(v),
        Ok(Err(e)) => Body::Bad(format!("value: {e}")),
        Err(e) => Body::Bad(format!("value: panic {e}")),
    }
}
fn decode_store(b: &[u8]) -> Body {
    match quiet(|| Store::deser(b).map(|s| of_store(&s)).map_err(|e| format!("{e:?}"))) {
        Ok(Ok(v)) => Body::Store(v),
        Ok(Err(e)) => Body::Bad(format!("store: {e}")),
        Err(e) => Body::Bad(format!("store: panic {e}")),
    }
}
fn creation(c: &CreationResult) -> String {
    match c {
        CreationResult::InsertedKeyIntoExistingDB => "InsertedKeyIntoExistingDB",
        CreationResult::OverwroteKeyInExistingDB => "OverwroteKeyInExistingDB",
        CreationResult::FoundExistingKey => "FoundExistingKey",
        CreationResult::InsertedKeyIntoNewDB => "InsertedKeyIntoNewDB",
        CreationResult::UnableToFindDB => "UnableToFindDB",
    }
    .to_string()
}

fn tf(b: bool) -> &'static str {
    if b {
        "true"
    } else {
        "false"
    }
}

pub fn request(op: &Op, all: bool) -> Option<Req> {
    let rq = |m: &str, t: String, b: Option<Vec<u8>>| Some(Req { method: m.into(), target: t, headers: vec![], body: b });
    match op {
        Op::AddDb { db, over } => rq(
            "POST",
            http::query("/v1/add_db", &[("db_name", db), ("overwrite_existing", tf(*over))], all),
            None,
        ),
        Op::AddContent { db, over, content } => rq(
            "PUT",
            http::query("/v1/add_db_with_content", &[("db_name", db), ("overwrite_existing", tf(*over))], all),
            Some(to_store(content).ser()),
        ),
        Op::PutBody { db, body, over, .. } => rq(
            "PUT",
            http::query("/v1/add_db_with_content", &[("db_name", db), ("overwrite_existing", tf(*over))], all),
            Some(body.0.clone()),
        ),
        Op::RmDb { db } => rq("POST", http::query("/v1/rm_db", &[("db_name", db)], all), None),
        Op::ClearDb { db } => rq("POST", http::query("/v1/clear_db", &[("db_name", db)], all), None),
        Op::AddKv { db, key, val, create, over } => rq(
            "PUT",
            http::query(
                "/v1/add_kv",
                &[("db_name", db), ("key", key), ("create_new_database", tf(*create)), ("overwrite_key", tf(*over))],
                all,
            ),
            Some(val.to_value().ser(None)),
        ),
        Op::PutValueBody { db, key, body, .. } => rq(
            "PUT",
            http::query(
                "/v1/add_kv",
                &[("db_name", db), ("key", key), ("create_new_database", "true"), ("overwrite_key", "true")],
                all,
            ),
            Some(body.0.clone()),
        ),
        Op::RmKv { db, key } => rq("POST", http::query("/v1/rm_kv", &[("db_name", db), ("key", key)], all), None),
        Op::GetVal { db, key } => rq("GET", http::query("/v1/get_value", &[("db_name", db), ("key", key)], all), None),
        Op::GetDb { db } => rq("GET", http::query("/v1/get_db", &[("db_name", db)], all), None),
        Op::Names => rq("GET", "/v1/get_all_db_names".into(), None),
        Op::Health => rq("GET", "/healthcheck".into(), None),
        Op::Raw { method, target, headers, body, .. } => Some(Req {
            method: method.clone(),
            target: target.clone(),
            headers: headers.clone(),
            body: if body.0.is_empty() && (method == "GET" || method == "HEAD") { None } else { Some(body.0.clone()) },
        }),
        _ => None,
    }
}

pub fn understand(op: &Op, status: u16, body: &[u8]) -> Body {
    let text = || Body::Text(String::from_utf8_lossy(&body[..body.len().min(200)]).into_owned());
    if status != 200 {
        return text();
    }
    match op {
        Op::AddKv { .. } | Op::PutValueBody { .. } => match serde_json::from_slice::<String>(body) {
            Ok(s) => Body::Creation(s),
            Err(_) => Body::Bad(format!("creation result {:?}", String::from_utf8_lossy(&body[..body.len().min(100)]))),
        },
        Op::GetVal { .. } => decode_value(body),
        Op::GetDb { .. } => decode_store(body),
        Op::Names => match serde_json::from_slice::<Vec<String>>(body) {
            Ok(mut v) => {
                v.sort();
                Body::Names(v)
            }
            Err(e) => Body::Bad(format!("names: {e}")),
        },
        _ => text(),
    }
}

// ------------------------------------------------------------------------------------------------ our own client

pub struct Http {
    pub id: usize,
    pub timeout: u64,
    conn: Option<Conn>,
}

impl Http {
    pub fn new(id: usize, timeout: u64) -> Self {
        Http { id, timeout, conn: None }
    }

    fn exchange(&mut self, rq: &Req, o: &NetOpts) -> Result<http::Resp, (Fail, bool)> {
        let deadline = k().now + self.timeout;
        if o.fresh_conn {
            self.conn = None;
        }
        // an idle connection might have been closed meanwhile: do not use it then
        if let Some(c) = &self.conn {
            let _ = c.s.set_nonblocking(true);
            let mut b = [0u8; 1];
            let r = c.s.peek(&mut b);
            let _ = c.s.set_nonblocking(false);
            match r {
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
                _ => self.conn = None,
            }
        }
        if self.conn.is_none() {
            self.conn = Some(Conn::open(deadline).map_err(|f| (f, true))?);
        }
        let (bytes, head) = http::bytes_of(rq, o);
        let c = self.conn.as_mut().unwrap();
        let total = bytes.len();
        let cut = match o.abort {
            Abort::AfterBytes(n) => (n as usize).min(total),
            _ => total,
        };
        let mut off = 0;
        let piece = if o.pieces > 0 { (total / o.pieces as usize).max(1) } else { total.max(1) };
        while off < cut {
            let mut n = piece.min(cut - off);
            if o.expect_continue && off < head {
                n = n.min(head - off);
            }
            if let Err(f) = c.write(&bytes[off..off + n], deadline) {
                // an early answer may be there
                if let Fail::Timeout = f {
                    return Err((f, off == 0));
                }
                match c.response(&rq.method, deadline, 0) {
                    Ok(r) => {
                        self.conn = None;
                        return Ok(r);
                    }
                    Err(_) => return Err((f, false)),
                }
            }
            off += n;
            if off < cut {
                http::nap(o.pause);
            }
        }
        if cut < total {
            k().stats.aborts += 1;
            return Err((Fail::Aborted(false), true));
        }
        match o.abort {
            Abort::AfterSend(d) => {
                http::nap(d);
                k().stats.aborts += 1;
                return Err((Fail::Aborted(true), false));
            }
            Abort::ResetAfterSend(d) => {
                http::nap(d);
                c.reset_on_close();
                k().stats.aborts += 1;
                k().stats.resets_sent += 1;
                return Err((Fail::Aborted(true), false));
            }
            Abort::HalfClose => {
                let _ = c.s.shutdown(std::net::Shutdown::Write);
            }
            _ => {}
        }
        let r = c.response(&rq.method, deadline, o.slow_read).map_err(|f| (f, false))?;
        // an early refusal leaves the body unread, and the connection is closed after it
        let early = r.status >= 400 && total > head;
        if r.close || early || matches!(o.abort, Abort::HalfClose) {
            self.conn = None;
        }
        Ok(r)
    }

    pub fn step(&mut self, op: &Op, o: &NetOpts) -> Out {
        match op {
            Op::Audit => {
                self.audit();
                return Out::Resp(0, Body::None);
            }
            Op::Sleep { ns } => {
                http::nap(*ns);
                return Out::Resp(0, Body::None);
            }
            Op::Meet { before } => {
                http::meet(*before);
                return Out::Resp(0, Body::None);
            }
            Op::Junk { bytes, .. } => return self.junk(op, &bytes.0),
            Op::Probe => return self.probe(op),
            _ => {}
        }
        let Some(rq) = request(op, o.encode_all) else { return Out::Lost("unknown".into()) };
        let i = begin(self.id, op);
        let (out, not_sent) = match self.exchange(&rq, o) {
            Ok(r) => (Out::Resp(r.status, understand(op, r.status, &r.body)), false),
            Err((f, ns)) => {
                self.conn = None;
                let t = match f {
                    Fail::Connect(e) => format!("connect: {e}"),
                    Fail::Lost(_) if matches!(o.abort, Abort::HalfClose) => "aborted".to_string(),
                    Fail::Lost(e) => format!("lost: {e}"),
                    Fail::Timeout => "timeout".to_string(),
                    Fail::Aborted(_) => "aborted".to_string(),
                    Fail::Bad(e) => {
                        end(i, Out::Wrong(e.clone()), false, false);
                        return Out::Wrong(e);
                    }
                };
                (Out::Lost(t), ns)
            }
        };
        if matches!(op, Op::Raw { close: true, .. }) {
            self.conn = None;
        }
        end(i, out.clone(), not_sent, false);
        out
    }

    fn junk(&mut self, op: &Op, b: &[u8]) -> Out {
        let i = begin(self.id, op);
        let deadline = k().now + 3_000_000_000;
        let r = (|| {
            let mut c = Conn::open(deadline)?;
            c.write(b, deadline)?;
            let _ = c.s.shutdown(std::net::Shutdown::Write);
            c.response("GET", deadline, 0)
        })();
        let out = match r {
            Ok(r) => Out::Resp(r.status, Body::Text(String::from_utf8_lossy(&r.body[..r.body.len().min(200)]).into_owned())),
            Err(Fail::Timeout) => Out::Lost("timeout".into()),
            Err(f) => Out::Lost(format!("{f:?}")),
        };
        end(i, out.clone(), false, false);
        out
    }

    ///reads everything there is
    ///what the daemon holds when nobody wants anything from it
    fn probe(&mut self, op: &Op) -> Out {
        self.conn = None;
        // its blocking threads go away after 10 s
        http::nap(45_000_000_000);
        let i = begin(self.id, op);
        let out = Out::Resp(0, k().holdings());
        end(i, out.clone(), false, false);
        out
    }
    pub fn audit(&mut self) {
        let o = NetOpts::default();
        let names = match self.step(&Op::Names, &o) {
            Out::Resp(200, Body::Names(n)) => n,
            _ => return,
        };
        for n in names {
            let r = self.step(&Op::GetDb { db: n.clone() }, &o);
            if let Out::Resp(200, Body::Store(c)) = r {
                let mut keys: Vec<String> = c.keys().cloned().collect();
                if keys.len() > 4 {
                    k().rng.shuffle(&mut keys);
                    keys.truncate(4);
                }
                for key in keys {
                    self.step(&Op::GetVal { db: n.clone(), key }, &o);
                }
            }
        }
    }
}

pub fn audit() {
    let mut h = Http::new(AUDITOR, 60_000_000_000);
    h.audit();
}

// ------------------------------------------------------------------------------------------------ the library's clients

fn client_error(e: &ClientError) -> Out {
    match e {
        ClientError::HttpErrorCode(c) => Out::Resp(c.as_u16(), Body::None),
        ClientError::ServerNotHealthy(c) => Out::Resp(c.as_u16(), Body::None),
        ClientError::Reqwest(e) => match e.status() {
            Some(s) => Out::Resp(s.as_u16(), Body::None),
            None => Out::Lost(format!("client: {e:?}").chars().take(300).collect()),
        },
        e => Out::Lost(format!("client: {e:?}").chars().take(300).collect()),
    }
}
fn created(r: Result<bool, ClientError>) -> Out {
    match r {
        Ok(c) => Out::Resp(if c { 201 } else { 200 }, Body::None),
        Err(e) => client_error(&e),
    }
}
fn names(r: Result<Vec<String>, ClientError>) -> Out {
    match r {
        Ok(mut v) => {
            v.sort();
            Out::Resp(200, Body::Names(v))
        }
        Err(e) => client_error(&e),
    }
}
fn creation_out(r: Result<CreationResult, ClientError>) -> Out {
    match r {
        Ok(c) => Out::Resp(200, Body::Creation(creation(&c))),
        Err(e) => client_error(&e),
    }
}
fn removed_entry(r: Result<(), ClientError>) -> Out {
    match r {
        Ok(()) => Out::OneOf(vec![(200, Body::None), (410, Body::None), (400, Body::None)]),
        Err(e) => client_error(&e),
    }
}

async fn async_op(c: &AsyncClient, op: &Op) -> Out {
    match op {
        Op::AddDb { db, over } => created(c.create_new_db(*over, db).await),
        Op::AddContent { db, over, content } => created(c.add_db_with_contents(*over, db, &to_store(content)).await),
        Op::RmDb { db } => match c.remove_db(db).await {
            Ok(true) => Out::Resp(200, Body::None),
            Ok(false) => Out::Resp(410, Body::None),
            Err(e) => client_error(&e),
        },
        Op::AddKv { db, key, val, create, over } => {
            creation_out(c.add_entry_to_db(db, *create, *over, key, &val.to_value()).await)
        }
        Op::RmKv { db, key } => removed_entry(c.remove_entry_from_db(db, key).await),
        Op::GetDb { db } => match c.get_store(db).await {
            Ok(Some(s)) => Out::Resp(200, Body::Store(of_store(&s))),
            Ok(None) => Out::Resp(410, Body::None),
            Err(e) => client_error(&e),
        },
        Op::Names => names(c.get_all_dbs().await),
        _ => Out::Lost("not a method".into()),
    }
}
fn sync_op(c: &SyncClient, op: &Op) -> Out {
    match op {
        Op::AddDb { db, over } => created(c.create_new_db(*over, db)),
        Op::AddContent { db, over, content } => created(c.add_db_with_contents(*over, db, &to_store(content))),
        Op::RmDb { db } => match c.remove_db(db) {
            Ok(()) => Out::Resp(200, Body::None),
            Err(e) => client_error(&e),
        },
        Op::AddKv { db, key, val, create, over } => {
            creation_out(c.add_entry_to_db(db, *create, *over, key, &val.to_value()))
        }
        Op::RmKv { db, key } => removed_entry(c.remove_entry_from_db(db, key)),
        Op::GetDb { db } => match c.get_store(db) {
            Ok(s) => Out::Resp(200, Body::Store(of_store(&s))),
            Err(e) => client_error(&e),
        },
        Op::Names => names(c.get_all_dbs()),
        _ => Out::Lost("not a method".into()),
    }
}

fn run_async(id: usize, c: &Client) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
    rt.block_on(async {
        let mut cl: Option<AsyncClient> = None;
        for s in &c.steps {
            if s.delay > 0 {
                tokio::time::sleep(Duration::from_nanos(s.delay)).await;
            }
            if k().dead || ctx().stop {
                return;
            }
            if cl.is_none() {
                let i = begin(id, &Op::Health);
                match tokio::time::timeout(Duration::from_nanos(c.timeout), AsyncClient::new("127.0.0.1", None)).await {
                    Ok(Ok(x)) => {
                        cl = Some(x);
                        end(i, Out::Resp(200, Body::None), false, false);
                    }
                    Ok(Err(e)) => end(i, client_error(&e), false, false),
                    Err(_) => end(i, Out::Lost("timeout".into()), false, false),
                }
            }
            let Some(x) = &cl else { continue };
            if let Op::Meet { before } = s.op {
                http::meet(before);
                continue;
            }
            if let Op::Sleep { ns } = s.op {
                tokio::time::sleep(Duration::from_nanos(ns)).await;
                continue;
            }
            let t = match s.net.abort {
                Abort::AfterSend(d) => d.max(1),
                _ => c.timeout,
            };
            let i = begin(id, &s.op);
            let out = match tokio::time::timeout(Duration::from_nanos(t), async_op(x, &s.op)).await {
                Ok(o) => o,
                Err(_) if t == c.timeout => Out::Lost("timeout".into()),
                Err(_) => {
                    k().stats.aborts += 1;
                    Out::Lost("aborted".into())
                }
            };
            // hyper sends a request again only if nothing of it was sent
            end(i, out, false, false);
        }
    });
}

fn run_sync(id: usize, c: &Client) {
    let mut cl: Option<SyncClient> = None;
    for s in &c.steps {
        http::nap(s.delay);
        if k().dead || ctx().stop {
            return;
        }
        if cl.is_none() {
            let i = begin(id, &Op::Health);
            match SyncClient::new("127.0.0.1", 7687) {
                Ok(x) => {
                    cl = Some(x);
                    end(i, Out::Resp(200, Body::None), false, false);
                }
                Err(e) => end(i, client_error(&e), false, false),
            }
        }
        let Some(x) = &cl else { continue };
        if let Op::Meet { before } = s.op {
            http::meet(before);
            continue;
        }
        if let Op::Sleep { ns } = s.op {
            http::nap(ns);
            continue;
        }
        let i = begin(id, &s.op);
        let out = sync_op(x, &s.op);
        // ureq repeats requests which it thinks are idempotent when a pooled connection turns out to be dead
        let twice = matches!(s.op, Op::AddContent { .. } | Op::AddKv { .. });
        end(i, out, false, twice);
    }
}

fn run_http(id: usize, c: &Client) {
    let mut h = Http::new(id, c.timeout);
    for s in &c.steps {
        http::nap(s.delay);
        if k().dead || ctx().stop {
            return;
        }
        h.step(&s.op, &s.net);
    }
    if c.linger && h.conn.is_some() {
        linger(false);
    }
}

fn linger(half: bool) {
    unsafe {
        LINGER += 1;
        if half {
            LINGER_HALF += 1;
        }
    }
    k().notify(CH_CLIENT);
    while !k().dead && !ctx().stop {
        let _g = KG::new();
        k().block(&[CH_DEAD, CH_STOP], None);
    }
    unsafe {
        LINGER -= 1;
        if half {
            LINGER_HALF -= 1;
        }
    }
}

pub fn run(i: usize) {
    let c = ctx().plan.epochs[ctx().idx].clients[i].clone();
    http::nap(c.start);
    let r = catch_unwind(AssertUnwindSafe(|| {
        if k().dead || ctx().stop {
            return;
        }
        match c.kind {
            ClientKind::Http => run_http(i, &c),
            ClientKind::Async => run_async(i, &c),
            ClientKind::Sync => run_sync(i, &c),
            ClientKind::Mouse => crate::mouse::run(i, &c),
            ClientKind::Idle => {
                if let Ok(conn) = Conn::open(k().now + c.timeout) {
                    linger(false);
                    drop(conn);
                }
            }
            ClientKind::HalfRequest => {
                if let Ok(mut conn) = Conn::open(k().now + c.timeout) {
                    let b: &[u8] = match i % 3 {
                        0 => b"PUT /v1/add_kv?db_name=half&key=k&create_new_database=true&overwrite_key=true HTTP/1.1\r\nhost: x\r\ncontent-length: 100\r\n\r\nab",
                        1 => b"GET /v1/get_all_db_",
                        _ => b"POST /v1/add_db?db_name=half&overwrite_existing=true HTTP/1.1\r\nhost",
                    };
                    let _ = conn.write(b, k().now + c.timeout);
                    linger(true);
                    drop(conn);
                }
            }
        }
    }));
    if let Err(e) = r {
        let t = panic_text(&*e);
        ctx().client_panics.push(format!("{:?} client {i}: {t}", c.kind));
    }
    k().clients_left -= 1;
    k().notify(CH_CLIENT);
}

pub fn raw_bytes(b: &[u8]) -> Bytes {
    Bytes(b.to_vec())
}
