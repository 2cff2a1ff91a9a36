//! rustc driver: dumps the monomorphised MIR of everything reachable from the
//! proof harnesses (functions of the crate being compiled whose path contains
//! `::proofs::`), as one JSON document. Used by the qmv verification-condition
//! generator. The MIR comes from the compiler itself, so the only program text
//! involved is /repo's current source and the harness crate.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_span;
extern crate serde;
extern crate serde_json;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CompilerError, CrateDef, CrateDefType};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER / RUSTC_WRAPPER style: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let dump = std::env::var("MIRDUMP_CRATE").ok();
    let this = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1).cloned());
    let want = dump.is_some() && this == dump;
    let r = rustc_public::run!(&args, || go(want));
    match r {
        Ok(_) | Err(CompilerError::Interrupted(_)) | Err(CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}

fn tid(t: &Ty) -> Value {
    serde_json::to_value(t).unwrap()
}

struct D {
    types: BTreeMap<u64, Value>,
    tyq: VecDeque<Ty>,
    fns: Map<String, Value>,
    fnq: VecDeque<Instance>,
    seen: HashSet<String>,
    allocs: Map<String, Value>,
    statics: Map<String, Value>,
    // concrete types that are unsized to a trait object
    dynsrc: HashMap<u64, Ty>,
    // virtual methods called: name -> (FnDef, args)
    virt: HashMap<String, (FnDef, GenericArgs)>,
    vdone: HashSet<(u64, String)>,
    vtab: Map<String, Value>,
    stop: Vec<String>,
    // trait methods a model of a stopped function may have to call back
    tfns: Map<String, Value>,
    tdone: HashSet<u64>,
}

fn prune(v: &mut Value) {
    match v {
        Value::Object(m) => {
            m.remove("span");
            m.remove("source_info");
            m.remove("user_ty");
            m.remove("source_scopes");
            m.remove("mutability");
            m.remove("unwind");
            for (_, x) in m.iter_mut() {
                prune(x);
            }
        }
        Value::Array(a) => {
            for x in a.iter_mut() {
                prune(x);
            }
        }
        _ => {}
    }
}

impl D {
    fn ty(&mut self, t: Ty) -> Value {
        let id = tid(&t);
        let n = id.as_u64().unwrap();
        if !self.types.contains_key(&n) {
            self.types.insert(n, Value::Null);
            self.tyq.push_back(t);
        }
        id
    }

    fn args(&mut self, a: &GenericArgs) -> Value {
        let v: Vec<Value> = a
            .0
            .iter()
            .filter_map(|g| match g {
                GenericArgKind::Type(t) => Some(self.ty(*t)),
                GenericArgKind::Const(c) => Some(json!({"const": c.eval_target_usize().ok()})),
                _ => None,
            })
            .collect();
        Value::Array(v)
    }

    fn emit_type(&mut self, t: Ty) {
        let n = tid(&t).as_u64().unwrap();
        let k = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"k":"bool"}),
                RigidTy::Char => json!({"k":"char"}),
                RigidTy::Int(i) => json!({"k":"int","signed":true,"bytes":i.num_bytes()}),
                RigidTy::Uint(i) => json!({"k":"int","signed":false,"bytes":i.num_bytes()}),
                RigidTy::Float(f) => json!({"k":"float","n":format!("{:?}", f)}),
                RigidTy::Adt(def, args) => {
                    let kind = def.kind();
                    let mut vs = Vec::new();
                    for v in def.variants() {
                        let fs: Vec<Value> = v
                            .fields()
                            .iter()
                            .map(|f| {
                                let ft = f.ty_with_args(&args);
                                let name = f.name.to_string();
                                json!([name, self.ty(ft)])
                            })
                            .collect();
                        let discr = if kind.is_enum() {
                            def.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".into()
                        };
                        vs.push(json!({"name": v.name().to_string(), "discr": discr, "fields": fs}));
                    }
                    let a = self.args(&args);
                    json!({"k":"adt","name":def.name().to_string(),"kind":format!("{:?}",kind),
                        "args":a,"variants":vs,"box":def.is_box()})
                }
                RigidTy::Str => json!({"k":"str"}),
                RigidTy::Array(e, c) => {
                    let e = self.ty(e);
                    json!({"k":"array","elem":e,"n":c.eval_target_usize().ok()})
                }
                RigidTy::Pat(e, _) => {
                    let e = self.ty(e);
                    json!({"k":"pat","elem":e})
                }
                RigidTy::Slice(e) => {
                    let e = self.ty(e);
                    json!({"k":"slice","elem":e})
                }
                RigidTy::RawPtr(e, _) => {
                    let e = self.ty(e);
                    json!({"k":"ptr","elem":e})
                }
                RigidTy::Ref(_, e, _) => {
                    let e = self.ty(e);
                    json!({"k":"ref","elem":e})
                }
                RigidTy::FnDef(def, args) => match Instance::resolve(def, &args) {
                    Ok(i) => {
                        let f = self.inst(i, def, &args);
                        json!({"k":"fndef","fn":f})
                    }
                    Err(_) => json!({"k":"fndef","fn":null,"name":def.name().to_string()}),
                },
                RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
                RigidTy::Closure(def, args) => {
                    // upvar tuple type is the last generic argument
                    let up = match args.0.last() {
                        Some(GenericArgKind::Type(t)) => self.ty(*t),
                        _ => Value::Null,
                    };
                    let mut m = Map::new();
                    for (nm, kind) in [("fn", ClosureKind::Fn), ("fnmut", ClosureKind::FnMut), ("fnonce", ClosureKind::FnOnce)] {
                        if let Ok(i) = Instance::resolve_closure(def, &args, kind) {
                            let key = self.inst_raw(i);
                            m.insert(nm.into(), key);
                        }
                    }
                    json!({"k":"closure","name":def.name().to_string(),"up":up,"inst":m})
                }
                RigidTy::Dynamic(preds, _) => {
                    let mut nm = String::new();
                    for p in preds {
                        if let ExistentialPredicate::Trait(t) = p.value {
                            nm = t.def_id.name().to_string();
                        }
                    }
                    json!({"k":"dyn","trait":nm})
                }
                RigidTy::Never => json!({"k":"never"}),
                RigidTy::Tuple(ts) => {
                    let v: Vec<Value> = ts.iter().map(|t| self.ty(*t)).collect();
                    json!({"k":"tuple","elems":v})
                }
                other => json!({"k":"other","d":format!("{:?}", other)}),
            },
            other => json!({"k":"other","d":format!("{:?}", other)}),
        };
        let mut k = k;
        let with_layout = matches!(
            t.kind(),
            TyKind::RigidTy(RigidTy::Adt(..)) | TyKind::RigidTy(RigidTy::Tuple(..)) | TyKind::RigidTy(RigidTy::Array(..))
        );
        if let Ok(l) = t.layout() {
            let s = l.shape();
            k["size"] = json!(s.size.bytes());
            if with_layout {
                k["layout"] = json!({"fields": serde_json::to_value(&s.fields).unwrap(),
                    "variants": serde_json::to_value(&s.variants).unwrap()});
            }
        }
        k["d"] = json!(format!("{}", t));
        self.types.insert(n, k);
    }

    fn inst_raw(&mut self, i: Instance) -> Value {
        let key = i.mangled_name().to_string();
        if self.seen.insert(key.clone()) {
            self.fnq.push_back(i);
        }
        json!(key)
    }

    /// Describe a callee: unique key, kind, printable names
    fn inst(&mut self, i: Instance, def: FnDef, args: &GenericArgs) -> Value {
        let dname = def.name().to_string();
        let (kind, key) = match i.kind {
            InstanceKind::Virtual { .. } => {
                let key = format!("virtual:{}", i.name());
                if !self.virt.contains_key(&key) {
                    self.virt.insert(key.clone(), (def, args.clone()));
                }
                ("virtual", json!(key))
            }
            InstanceKind::Intrinsic => ("intrinsic", json!(i.intrinsic_name().unwrap().to_string())),
            InstanceKind::LlvmIntrinsic => ("llvm", json!(i.name().to_string())),
            InstanceKind::Item => ("item", self.inst_raw(i)),
            InstanceKind::Shim => ("shim", self.inst_raw(i)),
        };
        let iname = rustc_public::CrateItem::try_from(i).map(|c| c.name().to_string()).unwrap_or(dname.clone());
        let a = self.args(args);
        json!({"kind":kind,"key":key,"name":i.name().to_string(),"def":dname,"idef":iname,"args":a})
    }

    fn excepted(&self, name: &str) -> bool {
        self.stop.iter().any(|s| s.strip_prefix('!').map(|r| {
            let mut ps = r.split('*');
            name.starts_with(ps.next().unwrap()) && ps.all(|p| name.contains(p))
        }).unwrap_or(false))
    }

    fn stopped(&self, name: &str) -> bool {
        self.stop.iter().any(|s| {
            if let Some(r) = s.strip_prefix('~') { name.contains(r) } else { name.starts_with(s.as_str()) }
        })
    }

    fn alloc(&mut self, id: rustc_public::mir::alloc::AllocId) {
        let n = serde_json::to_value(&id).unwrap().to_string();
        if self.allocs.contains_key(&n) {
            return;
        }
        self.allocs.insert(n.clone(), Value::Null);
        let v = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => {
                for (_, p) in a.provenance.ptrs.iter() {
                    self.alloc(p.0);
                }
                json!({"k":"mem","a":alloc_json(&a)})
            }
            GlobalAlloc::Function(i) => json!({"k":"fn","key":self.inst_raw(i)}),
            GlobalAlloc::Static(s) => {
                let name = s.name().to_string();
                let t = self.ty(s.ty());
                if !self.statics.contains_key(&name) {
                    self.statics.insert(name.clone(), Value::Null);
                    let init = s.eval_initializer().ok();
                    let v = match init {
                        Some(a) => {
                            for (_, p) in a.provenance.ptrs.iter() {
                                self.alloc(p.0);
                            }
                            json!({"ty":t,"a":alloc_json(&a)})
                        }
                        None => json!({"ty":t}),
                    };
                    self.statics.insert(name.clone(), v);
                }
                json!({"k":"static","name":name,"ty":t})
            }
            GlobalAlloc::VTable(t, _) => {
                let n = tid(&t).as_u64().unwrap();
                self.dynsrc.insert(n, t);
                json!({"k":"vtable","ty":self.ty(t)})
            }
            GlobalAlloc::TypeId { ty } => json!({"k":"typeid","ty":self.ty(ty)}),
        };
        self.allocs.insert(n, v);
    }

    fn unsize_source(&mut self, t: Ty, depth: usize) {
        if depth > 4 {
            return;
        }
        match t.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => self.add_dyn(e),
            TyKind::RigidTy(RigidTy::Adt(_, args)) => {
                for a in args.0.iter() {
                    if let GenericArgKind::Type(t) = a {
                        self.add_dyn(*t);
                    }
                }
            }
            _ => {}
        }
    }

    fn add_dyn(&mut self, t: Ty) {
        if let TyKind::RigidTy(r) = t.kind() {
            if matches!(r, RigidTy::Dynamic(..) | RigidTy::Slice(..) | RigidTy::Array(..) | RigidTy::Str) {
                return;
            }
        }
        let n = self.ty(t).as_u64().unwrap();
        self.dynsrc.insert(n, t);
    }

    fn trait_fns(&mut self, t: Ty) {
        let n = self.ty(t).as_u64().unwrap();
        if !self.tdone.insert(n) {
            return;
        }
        if let TyKind::RigidTy(RigidTy::Ref(_, e, _)) = t.kind() {
            self.trait_fns(e);
        }
        if let TyKind::RigidTy(RigidTy::Adt(_, a)) = t.kind() {
            for g in a.0.iter() {
                if let GenericArgKind::Type(t) = g {
                    self.trait_fns(*t);
                }
            }
        }
        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
            for t in ts {
                self.trait_fns(t);
            }
        }
        for (label, tr, m, two) in [
            ("next", "Iterator", "next", false),
            ("next_back", "DoubleEndedIterator", "next_back", false),
            ("into_iter", "IntoIterator", "into_iter", false),
            ("clone", "Clone", "clone", false),
            ("default", "Default", "default", false),
            ("eq", "PartialEq", "eq", true),
            ("cmp", "Ord", "cmp", false),
            ("partial_cmp", "PartialOrd", "partial_cmp", true),
            ("display", "Display", "fmt", false),
            ("from_str", "FromStr", "from_str", false),
        ] {
            let def = match find_method(tr, m) {
                Some(d) => d,
                None => { eprintln!("mirdump: no method {}::{}", tr, m); continue }
            };
            let mut a = vec![GenericArgKind::Type(t)];
            if two {
                a.push(GenericArgKind::Type(t));
            }
            let a = GenericArgs(a);
            if implements(&def, &a) {
                if let Ok(i) = Instance::resolve(def, &a) {
                    let d = self.inst(i, def, &a);
                    self.tfns.insert(format!("{}|{}", n, label), d);
                }
            }
        }
    }

    fn emit_fn(&mut self, i: Instance) {
        let key = i.mangled_name().to_string();
        let name = i.name().to_string();
        let dname = rustc_public::CrateItem::try_from(i).map(|c| c.name().to_string()).unwrap_or(name.clone());
        if !self.excepted(&dname) && !self.excepted(&name) && self.stopped(&dname) {
            let args = i.args();
            let a = self.args(&args);
            for g in args.0.iter() {
                if let GenericArgKind::Type(t) = g {
                    self.trait_fns(*t);
                }
            }
            self.fns.insert(key, json!({"name":name,"def":dname,"body":null,"stopped":true,"args":a}));
            return;
        }
        let args = i.args();
        let a = self.args(&args);
        let body = if i.kind == InstanceKind::Item || i.kind == InstanceKind::Shim { i.body() } else { None };
        let body = match body {
            None => {
                self.fns.insert(key, json!({"name":name,"def":dname,"body":null,"args":a}));
                return;
            }
            Some(b) => b,
        };
        let mut v = Vis { consts: vec![], tys: vec![], casts: vec![] };
        v.visit_body(&body);
        let Vis { consts, tys, casts } = v;
        for t in tys {
            self.ty(t);
        }
        for c in consts {
            self.ty(c.ty());
            if let ConstantKind::Allocated(a) = c.kind() {
                for (_, p) in a.provenance.ptrs.iter() {
                    self.alloc(p.0);
                }
            }
        }
        for (op, _t) in casts {
            if let Ok(st) = op.ty(body.locals()) {
                self.ty(st);
                self.unsize_source(st, 0);
            }
        }
        for l in body.locals() {
            self.ty(l.ty);
        }
        // source lines of terminators
        let file = body.span.get_filename().to_string();
        let lines: Vec<usize> = body.blocks.iter().map(|b| b.terminator.source_info.span.get_lines().start_line).collect();
        let mut bj = serde_json::to_value(&body).unwrap();
        prune(&mut bj);
        self.fns.insert(key, json!({"name":name,"def":dname,"args":a,"body":bj,"file":file,
            "line":body.span.get_lines().start_line,"lines":lines,
            "kind":format!("{:?}", i.kind)}));
    }

    fn drain(&mut self) {
        loop {
            if let Some(t) = self.tyq.pop_front() {
                self.emit_type(t);
                continue;
            }
            if let Some(i) = self.fnq.pop_front() {
                self.emit_fn(i);
                continue;
            }
            // resolve virtual methods against every type turned into a trait object
            let mut todo = Vec::new();
            for (vk, (def, args)) in self.virt.iter() {
                for (n, t) in self.dynsrc.iter() {
                    if !self.vdone.contains(&(*n, vk.clone())) {
                        todo.push((vk.clone(), *def, args.clone(), *n, *t));
                    }
                }
            }
            if todo.is_empty() {
                break;
            }
            for (vk, def, args, n, t) in todo {
                self.vdone.insert((n, vk.clone()));
                let mut a2 = args.0.clone();
                let mut dyntrait = None;
                if let Some(GenericArgKind::Type(st)) = a2.get(0) {
                    if let TyKind::RigidTy(RigidTy::Dynamic(..)) = st.kind() {
                        dyntrait = Some(*st);
                    }
                }
                if dyntrait.is_none() {
                    continue;
                }
                a2[0] = GenericArgKind::Type(t);
                if !implements(&def, &GenericArgs(a2.clone())) {
                    continue;
                }
                if let Ok(i) = Instance::resolve(def, &GenericArgs(a2.clone())) {
                    if matches!(i.kind, InstanceKind::Item | InstanceKind::Shim) {
                        let d = self.inst(i, def, &GenericArgs(a2));
                        self.vtab.insert(format!("{}|{}", n, vk), d);
                    }
                }
            }
        }
    }
}

/// True if the trait method `def` applied to `args` can be resolved without
/// tripping the compiler: ask the trait solver first.
fn implements(def: &FnDef, args: &GenericArgs) -> bool {
    use rustc_public::rustc_internal;
    rustc_middle::ty::tls::with(|tcx| {
        let did = rustc_internal::internal(tcx, def.def_id());
        let ia = rustc_internal::internal(tcx, args);
        let tr = match tcx.trait_of_assoc(did) {
            Some(t) => t,
            None => return false,
        };
        let ia = tcx.erase_and_anonymize_regions(ia);
        let targs = ia.truncate_to(tcx, tcx.generics_of(tr));
        let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
        let tref = rustc_middle::ty::TraitRef::new_from_args(tcx, tr, targs);
        tcx.codegen_select_candidate(env.as_query_input(tref)).is_ok()
    })
}

/// Find a method of a well known trait
fn find_method(tr: &str, m: &str) -> Option<FnDef> {
    use rustc_public::rustc_internal;
    let did = rustc_middle::ty::tls::with(|tcx| {
        let sym = rustc_span::Symbol::intern(tr);
        let t = tcx.get_diagnostic_item(sym).or_else(|| match tr {
            "PartialEq" => tcx.lang_items().eq_trait(),
            "PartialOrd" => tcx.lang_items().partial_ord_trait(),
            "Clone" => tcx.lang_items().clone_trait(),
            "Iterator" => tcx.lang_items().iterator_trait(),
            _ => None,
        })?;
        tcx.associated_items(t).in_definition_order()
            .find(|a| a.opt_name().map(|n| n.as_str() == m).unwrap_or(false))
            .map(|a| a.def_id)
    })?;
    rustc_middle::ty::tls::with(|tcx| {
        let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
        match rustc_internal::stable(ty).kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, _)) => Some(d),
            _ => None,
        }
    })
}

fn alloc_json(a: &Allocation) -> Value {
    let b: Vec<Value> = a.bytes.iter().map(|x| match x {
        Some(v) => json!(v),
        None => Value::Null,
    }).collect();
    let p: Vec<Value> = a.provenance.ptrs.iter().map(|(o, p)| json!([o, serde_json::to_value(&p.0).unwrap()])).collect();
    json!({"bytes": b, "ptrs": p})
}

struct Vis {
    consts: Vec<MirConst>,
    tys: Vec<Ty>,
    casts: Vec<(Operand, Ty)>,
}

impl MirVisitor for Vis {
    fn visit_ty(&mut self, ty: &Ty, _l: visit::Location) {
        self.tys.push(*ty);
    }
    fn visit_mir_const(&mut self, c: &MirConst, _l: visit::Location) {
        self.consts.push(c.clone());
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: visit::Location) {
        match r {
            Rvalue::Cast(_, o, t) => {
                self.tys.push(*t);
                self.casts.push((o.clone(), *t));
            }
            Rvalue::Aggregate(AggregateKind::Adt(d, _, a, _, _), _) => self.tys.push(d.ty_with_args(a)),
            Rvalue::Aggregate(AggregateKind::Closure(d, a), _) => self.tys.push(Ty::new_closure(*d, a.clone())),
            Rvalue::Aggregate(AggregateKind::Array(t), _) => self.tys.push(*t),
            _ => {}
        }
        self.super_rvalue(r, l);
    }
    fn visit_projection_elem(&mut self, _p: visit::PlaceRef<'_>, e: &ProjectionElem, pt: visit::PlaceContext, l: visit::Location) {
        if let ProjectionElem::Field(_, t) = e {
            self.tys.push(*t);
        }
        self.super_projection_elem(e, pt, l);
    }
}

fn go(want: bool) -> ControlFlow<()> {
    if !want {
        return ControlFlow::Continue(());
    }
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let prefix = std::env::var("MIRDUMP_ROOTS").unwrap_or("proofs::".to_string());
    let stop: Vec<String> = std::env::var("MIRDUMP_STOP")
        .ok()
        .map(|p| std::fs::read_to_string(p).unwrap().lines().map(|s| s.to_string()).filter(|s| !s.is_empty()).collect())
        .unwrap_or_default();
    let mut d = D {
        types: BTreeMap::new(), tyq: VecDeque::new(), fns: Map::new(), fnq: VecDeque::new(), seen: HashSet::new(),
        allocs: Map::new(), statics: Map::new(), dynsrc: HashMap::new(), virt: HashMap::new(), vdone: HashSet::new(),
        vtab: Map::new(), stop, tfns: Map::new(), tdone: HashSet::new(),
    };
    let mut roots = Map::new();
    for it in rustc_public::all_local_items() {
        let name = it.name().to_string();
        if name.contains(&prefix) && !name.contains("{") {
            if let Ok(i) = Instance::try_from(it) {
                if i.body().is_some() {
                    let k = d.inst_raw(i);
                    roots.insert(name, k);
                }
            }
        }
    }
    d.drain();
    let types: Map<String, Value> = d.types.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let v = json!({"roots": roots, "fns": d.fns, "types": types, "allocs": d.allocs, "statics": d.statics, "vtab": d.vtab, "tfns": d.tfns});
    std::fs::write(&out, serde_json::to_string(&v).unwrap()).unwrap();
    ControlFlow::Continue(())
}
