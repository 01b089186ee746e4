//! MIR server: runs rustc's front end on the harness crate and then answers
//! JSON queries (one per line, stdin -> stdout) about monomorphic MIR bodies,
//! types, layouts, allocations and trait resolution.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate serde_json;

use rustc_middle::ty::TyCtxt;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::rustc_internal;
use rustc_public::ty::{
    ClosureKind, FnDef, GenericArgKind, GenericArgs, RigidTy, Ty, TyKind,
};
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::ops::ControlFlow;

struct Srv<'tcx> {
    tcx: TyCtxt<'tcx>,
    insts: Vec<Instance>,
    inst_ids: HashMap<Instance, usize>,
    statics: Vec<StaticDef>,
    traits: HashMap<String, rustc_public::ty::TraitDef>,
    trait_methods: HashMap<(String, String), FnDef>,
}

fn args_json(args: &GenericArgs) -> Value {
    Value::Array(
        args.0
            .iter()
            .map(|a| match a {
                GenericArgKind::Lifetime(_) => json!({"k":"lt"}),
                GenericArgKind::Type(t) => json!({"k":"ty","ty":t.to_index()}),
                GenericArgKind::Const(c) => {
                    json!({"k":"const","v": c.eval_target_usize().ok()})
                }
            })
            .collect(),
    )
}

impl<'tcx> Srv<'tcx> {
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.inst_ids.get(&i) {
            return *x;
        }
        let n = self.insts.len();
        self.insts.push(i);
        self.inst_ids.insert(i, n);
        n
    }

    fn path(&self, d: rustc_public::DefId) -> String {
        let did = rustc_internal::internal(self.tcx, d);
        let p = rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(did));
        if did.is_local() {
            format!("{}::{}", self.tcx.crate_name(did.krate), p)
        } else {
            p
        }
    }

    fn inst_json(&mut self, i: Instance) -> Value {
        let id = self.inst(i);
        let did = rustc_internal::internal(self.tcx, i.def.def_id());
        let derived = {
            let mut d = did;
            let mut r = false;
            for _ in 0..3 {
                if matches!(self.tcx.def_kind(d), rustc_hir::def::DefKind::Impl { .. }) {
                    r = self.tcx.is_automatically_derived(d);
                    break;
                }
                match self.tcx.opt_parent(d) {
                    Some(p) => d = p,
                    None => break,
                }
            }
            r
        };
        // the variant a tuple constructor builds
        let ctor = {
            let d = rustc_internal::internal(self.tcx, i.def.def_id());
            if matches!(self.tcx.def_kind(d), rustc_hir::def::DefKind::Ctor(_, rustc_hir::def::CtorKind::Fn)) {
                let p = self.tcx.parent(d);
                let a = if matches!(self.tcx.def_kind(p), rustc_hir::def::DefKind::Variant) { self.tcx.parent(p) } else { p };
                Some(self.tcx.adt_def(a).variant_index_with_ctor_id(d).as_usize())
            } else {
                None
            }
        };
        json!({
            "inst": id,
            "name": i.name().to_string(),
            "path": self.path(i.def.def_id()),
            "kind": match i.kind {
                InstanceKind::Item => "item".to_string(),
                InstanceKind::Intrinsic => "intrinsic".to_string(),
                InstanceKind::LlvmIntrinsic => "llvm".to_string(),
                InstanceKind::Virtual{idx} => format!("virtual:{idx}"),
                InstanceKind::Shim => "shim".to_string(),
            },
            "iname": i.intrinsic_name().map(|s| s.to_string()),
            "has_body": i.has_body(),
            "krate": i.def.krate().name.to_string(),
            "derived": derived,
            "ctor": ctor,
            "args": args_json(&i.args()),
        })
    }

    fn ty_json(&mut self, t: Ty) -> Value {
        let mut m = Map::new();
        m.insert("s".into(), json!(format!("{}", t)));
        let k = t.kind();
        let r = match k {
            TyKind::RigidTy(r) => r,
            other => {
                m.insert("k".into(), json!("other"));
                m.insert("dbg".into(), json!(format!("{other:?}")));
                return Value::Object(m);
            }
        };
        let mut put = |k: &str, v: Value| {
            m.insert(k.into(), v);
        };
        match r {
            RigidTy::Bool => put("k", json!("bool")),
            RigidTy::Char => put("k", json!("char")),
            RigidTy::Int(i) => {
                put("k", json!("int"));
                put("bits", json!(i.num_bytes() * 8));
            }
            RigidTy::Uint(i) => {
                put("k", json!("uint"));
                put("bits", json!(i.num_bytes() * 8));
            }
            RigidTy::Float(_) => put("k", json!("float")),
            RigidTy::Str => put("k", json!("str")),
            RigidTy::Never => put("k", json!("never")),
            RigidTy::Array(e, n) => {
                put("k", json!("array"));
                put("elem", json!(e.to_index()));
                put("len", json!(n.eval_target_usize().ok()));
            }
            RigidTy::Slice(e) => {
                put("k", json!("slice"));
                put("elem", json!(e.to_index()));
            }
            RigidTy::RawPtr(e, _) => {
                put("k", json!("ptr"));
                put("elem", json!(e.to_index()));
            }
            RigidTy::Ref(_, e, mu) => {
                put("k", json!("ref"));
                put("elem", json!(e.to_index()));
                put("mut", json!(matches!(mu, rustc_public::mir::Mutability::Mut)));
            }
            RigidTy::Tuple(ts) => {
                put("k", json!("tuple"));
                put("elems", json!(ts.iter().map(|t| t.to_index()).collect::<Vec<_>>()));
            }
            RigidTy::FnPtr(_) => put("k", json!("fnptr")),
            RigidTy::Dynamic(preds, _) => {
                put("k", json!("dyn"));
                put("preds", json!(format!("{preds:?}")));
            }
            RigidTy::FnDef(d, args) => {
                put("k", json!("fndef"));
                put("path", json!(self.path(d.def_id())));
                put("args", args_json(&args));
                let did = rustc_internal::internal(self.tcx, d.def_id());
                let tr = self.tcx.trait_of_assoc(did).map(|t| {
                    rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(t))
                });
                put("trait", json!(tr));
                match Instance::resolve(d, &args) {
                    Ok(i) => {
                        let v = self.inst_json(i);
                        put("inst", v);
                    }
                    Err(_) => put("inst", Value::Null),
                }
            }
            RigidTy::Closure(d, args) => {
                put("k", json!("closure"));
                put("path", json!(self.path(d.def_id())));
                match Instance::resolve_closure(d, &args, ClosureKind::Fn) {
                    Ok(i) => {
                        let v = self.inst_json(i);
                        put("inst", v);
                    }
                    Err(_) => put("inst", Value::Null),
                }
                // upvar tuple is the last generic arg
                if let Some(GenericArgKind::Type(t)) = args.0.last() {
                    put("upvars", json!(t.to_index()));
                }
            }
            RigidTy::Adt(d, args) => {
                put("k", json!("adt"));
                put("path", json!(self.path(d.def_id())));
                put("adt_kind", json!(format!("{:?}", d.kind())));
                put("args", args_json(&args));
                let mut vs = vec![];
                for v in d.variants_iter() {
                    let fs: Vec<Value> = v
                        .fields()
                        .iter()
                        .map(|f| {
                            json!({"name": f.name.to_string(), "ty": f.ty_with_args(&args).to_index()})
                        })
                        .collect();
                    let discr = if format!("{:?}", d.kind()) == "Enum" {
                        {
                            let x = d.discriminant_for_variant(v.idx());
                            let t = format!("{:?}", x.ty.kind());
                            let bits = [("I8", 8), ("I16", 16), ("I32", 32), ("I64", 64), ("Isize", 64)]
                                .iter()
                                .find(|(n, _)| t.contains(&format!("Int({n})")) && !t.contains("Uint"))
                                .map(|(_, b)| *b);
                            // the bits of a signed discriminant as the number they stand for
                            match bits {
                                Some(b) if x.val >> (b - 1) & 1 == 1 => json!((x.val as i128 - (1i128 << b)).to_string()),
                                _ => json!(x.val.to_string()),
                            }
                        }
                    } else {
                        Value::Null
                    };
                    vs.push(json!({"name": v.name().to_string(), "fields": fs, "discr": discr}));
                }
                put("variants", json!(vs));
            }
            other => {
                put("k", json!("other"));
                put("dbg", json!(format!("{other:?}")));
            }
        }
        Value::Object(m)
    }

    fn load_traits(&mut self) {
        if !self.traits.is_empty() {
            return;
        }
        for t in rustc_public::all_trait_decls() {
            let p = self.path(t.def_id());
            self.traits.insert(p, t);
        }
    }

    fn trait_method(&mut self, tr: &str, method: &str) -> Option<FnDef> {
        self.load_traits();
        let key = (tr.to_string(), method.to_string());
        if let Some(f) = self.trait_methods.get(&key) {
            return Some(*f);
        }
        let t = *self.traits.get(tr)?;
        for it in t.associated_items() {
            if let rustc_public::ty::AssocKind::Fn { name, .. } = &it.kind {
                if name.to_string() == method {
                    // turn the assoc DefId into an FnDef via internal type_of
                    let did = rustc_internal::internal(self.tcx, it.def_id.def_id());
                    let ty = self.tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let sty: Ty = rustc_internal::stable(ty);
                    if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = sty.kind() {
                        self.trait_methods.insert(key, d);
                        return Some(d);
                    }
                }
            }
        }
        None
    }

    fn answer(&mut self, q: &Value) -> Value {
        let s = |k: &str| q[k].as_str().unwrap_or("").to_string();
        let n = |k: &str| q[k].as_u64().unwrap_or(u64::MAX) as usize;
        match s("q").as_str() {
            "entries" => {
                let mut v = vec![];
                for it in rustc_public::all_local_items() {
                    if let Ok(i) = Instance::try_from(it) {
                        let j = self.inst_json(i);
                        v.push(j);
                    }
                }
                Value::Array(v)
            }
            "body" => {
                let i = self.insts[n("inst")];
                match i.body() {
                    Some(b) => serde_json::to_value(&b).unwrap(),
                    None => Value::Null,
                }
            }
            "inst" => {
                let i = self.insts[n("inst")];
                self.inst_json(i)
            }
            "sig" => {
                // argument types and return type of an instance, from its body locals
                let i = self.insts[n("inst")];
                match i.body() {
                    Some(b) => json!({
                        "args": b.arg_locals().iter().map(|l| l.ty.to_index()).collect::<Vec<_>>(),
                        "ret": b.ret_local().ty.to_index(),
                    }),
                    None => Value::Null,
                }
            }
            "ty" => {
                let t = Ty::to_val(n("ty"));
                self.ty_json(t)
            }
            "layout" => {
                let t = Ty::to_val(n("ty"));
                match t.layout() {
                    Ok(l) => serde_json::to_value(&l.shape()).unwrap(),
                    Err(_) => Value::Null,
                }
            }
            "alloc" => {
                let a = AllocId::to_val(n("id"));
                match GlobalAlloc::from(a) {
                    GlobalAlloc::Function(i) => json!({"k":"fn","inst": self.inst_json(i)}),
                    GlobalAlloc::VTable(t, _) => json!({"k":"vtable","ty":t.to_index()}),
                    GlobalAlloc::Static(sd) => {
                        let name = self.path(sd.def_id());
                        let al = sd.eval_initializer().ok();
                        self.statics.push(sd);
                        json!({"k":"static","name":name,"ty":sd.ty().to_index(),
                               "alloc": al.map(|a| serde_json::to_value(&a).unwrap())})
                    }
                    GlobalAlloc::Memory(m) => {
                        json!({"k":"mem","alloc":serde_json::to_value(&m).unwrap()})
                    }
                    GlobalAlloc::TypeId { ty } => json!({"k":"typeid","ty":ty.to_index()}),
                }
            }
            "const" => {
                // evaluate an unevaluated/Ty MirConst by id is not needed: bodies are evaluated
                Value::Null
            }
            "resolve" => {
                // resolve <T0 as trait<T1..>>::method::<rest>
                let f = match self.trait_method(&s("trait"), &s("method")) {
                    Some(f) => f,
                    None => return json!({"err": "no such trait method"}),
                };
                let tys: Vec<Ty> = q["tys"]
                    .as_array()
                    .map(|a| a.iter().map(|x| Ty::to_val(x.as_u64().unwrap() as usize)).collect())
                    .unwrap_or_default();
                let did = rustc_internal::internal(self.tcx, f.def_id());
                let g = self.tcx.generics_of(did);
                let mut it = tys.iter();
                let mut out: Vec<GenericArgKind> = vec![];
                for idx in 0..g.count() {
                    let p = g.param_at(idx, self.tcx);
                    match p.kind {
                        rustc_middle::ty::GenericParamDefKind::Lifetime => {
                            out.push(GenericArgKind::Lifetime(rustc_public::ty::Region {
                                kind: rustc_public::ty::RegionKind::ReErased,
                            }))
                        }
                        _ => match it.next() {
                            Some(t) => out.push(GenericArgKind::Type(*t)),
                            None => return json!({"err": "not enough types"}),
                        },
                    }
                }
                let ga = GenericArgs(out);
                // does the trait impl exist?
                let tdid = self.tcx.trait_of_assoc(did);
                if let Some(tdid) = tdid {
                    let iargs = rustc_internal::internal(self.tcx, ga.clone());
                    let tg = self.tcx.generics_of(tdid).count();
                    let targs: Vec<_> = iargs.iter().take(tg).collect();
                    let tr = rustc_middle::ty::TraitRef::new(self.tcx, tdid, targs);
                    let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
                    let r = self.tcx.codegen_select_candidate(env.as_query_input(tr));
                    if r.is_err() {
                        return json!({"err": "not implemented"});
                    }
                }
                match Instance::resolve(f, &ga) {
                    Ok(i) => self.inst_json(i),
                    Err(_) => json!({"err": "unresolved"}),
                }
            }
            "drop" => {
                let t = Ty::to_val(n("ty"));
                let i = Instance::resolve_drop_in_place(t);
                self.inst_json(i)
            }
            other => json!({"err": format!("unknown query {other}")}),
        }
    }
}

fn serve(tcx: TyCtxt<'_>) -> ControlFlow<(), ()> {
    let mut srv = Srv {
        tcx,
        insts: vec![],
        inst_ids: HashMap::new(),
        statics: vec![],
        traits: HashMap::new(),
        trait_methods: HashMap::new(),
    };
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    {
        let mut o = stdout.lock();
        writeln!(o, "READY").unwrap();
        o.flush().unwrap();
    }
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        if line.is_empty() {
            continue;
        }
        let q: Value = serde_json::from_str(&line).unwrap();
        let a = if q["q"] == "batch" {
            Value::Array(q["qs"].as_array().unwrap().iter().map(|x| srv.answer(x)).collect())
        } else {
            srv.answer(&q)
        };
        let mut o = stdout.lock();
        serde_json::to_writer(&mut o, &a).unwrap();
        writeln!(o).unwrap();
        o.flush().unwrap();
    }
    ControlFlow::Break(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let _ = rustc_public::run_with_tcx!(&args, serve);
}
