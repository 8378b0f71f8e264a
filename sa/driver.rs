// Fact extractor: dumps type-resolved MIR of the analysed workspace as JSON.
// Compiled with `rustc +nightly` (rustc_private); injected by cargo as
// RUSTC_WORKSPACE_WRAPPER. It writes $SA_DUMP_DIR/<crate>.<kind>.json.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
  let mut o = String::with_capacity(s.len() + 2);
  o.push('"');
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\t' => o.push_str("\\t"),
      '\r' => o.push_str("\\r"),
      c if (c as u32) < 0x20 => {
        let _ = write!(o, "\\u{:04x}", c as u32);
      }
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

struct Cx<'tcx> {
  tcx: TyCtxt<'tcx>,
  tys: HashMap<Ty<'tcx>, usize>,
  tylist: Vec<String>,
  paths: HashMap<DefId, String>,
}

impl<'tcx> Cx<'tcx> {
  fn ty(&mut self, t: Ty<'tcx>) -> usize {
    if let Some(i) = self.tys.get(&t) {
      return *i;
    }
    let s = with_no_visible_paths!(with_no_trimmed_paths!(t.to_string()));
    let i = self.tylist.len();
    self.tylist.push(s);
    self.tys.insert(t, i);
    i
  }

  fn tystr(&mut self, t: Ty<'tcx>) -> String {
    let i = self.ty(t);
    self.tylist[i].clone()
  }

  fn self_name(&mut self, t: Ty<'tcx>) -> String {
    match t.kind() {
      ty::Adt(a, _) => self.path(a.did()),
      ty::Ref(_, inner, _) => format!("&{}", self.self_name(*inner)),
      _ => self.tystr(t),
    }
  }

  fn path(&mut self, d: DefId) -> String {
    if let Some(p) = self.paths.get(&d) {
      return p.clone();
    }
    let p = self.path0(d);
    self.paths.insert(d, p.clone());
    p
  }

  fn path0(&mut self, d: DefId) -> String {
    let tcx = self.tcx;
    let key = tcx.def_key(d);
    if key.parent.is_none() {
      return tcx.crate_name(d.krate).to_string();
    }
    let parent = DefId { krate: d.krate, index: key.parent.unwrap() };
    let data = key.disambiguated_data;
    match tcx.def_kind(d) {
      DefKind::Impl { .. } => {
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let s = self.self_name(t);
        if let Some(tr) = tcx.impl_opt_trait_ref(d) {
          let tr = tr.skip_binder();
          let tp = self.path(tr.def_id);
          format!("<{s} as {tp}>")
        } else {
          s
        }
      }
      DefKind::Closure => {
        let pp = self.path(parent);
        format!("{pp}::{{closure#{}}}", data.disambiguator)
      }
      DefKind::ForeignMod => self.path(parent),
      _ => {
        let pp = self.path(parent);
        let name = data.as_sym(false);
        format!("{pp}::{name}")
      }
    }
  }

  fn line(&self, sp: Span) -> usize {
    let sp = sp.source_callsite();
    self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
  }

  fn file(&self, sp: Span) -> String {
    let sp = sp.source_callsite();
    let f = self.tcx.sess.source_map().lookup_char_pos(sp.lo()).file.clone();
    f.name.prefer_local_unconditionally().to_string()
  }

  fn macro_name(&self, sp: Span) -> Option<String> {
    // the outermost macro the span was expanded from
    let mut res = None;
    let mut s = sp;
    while s.from_expansion() {
      let e = s.ctxt().outer_expn_data();
      if let rustc_span::ExpnKind::Macro(_, n) = e.kind {
        res = Some(n.to_string());
      }
      s = e.call_site;
    }
    res
  }

  fn place(&mut self, b: &Body<'tcx>, p: Place<'tcx>) -> String {
    let tcx = self.tcx;
    let mut s = format!("[{}", p.local.as_usize());
    let mut pt = PlaceTy::from_ty(b.local_decls[p.local].ty);
    for el in p.projection.iter() {
      match el {
        ProjectionElem::Deref => s.push_str(",\"*\""),
        ProjectionElem::Field(f, _) => {
          let name = match pt.ty.kind() {
            ty::Adt(a, _) if !a.is_box() => {
              let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
              let v = if a.is_enum() { v } else { rustc_abi::FIRST_VARIANT };
              a.variants()[v].fields[f].name.to_string()
            }
            ty::Closure(cd, _) => {
              let names = tcx.closure_saved_names_of_captured_variables(*cd);
              format!("^{}", names.iter().nth(f.as_usize()).map(|s| s.to_string()).unwrap_or_default())
            }
            _ => f.as_usize().to_string(),
          };
          let owner = match pt.ty.kind() {
            ty::Adt(a, _) => self.path(a.did()),
            _ => String::new(),
          };
          let _ = write!(s, ",[\"f\",{},{}]", esc(&name), esc(&owner));
        }
        ProjectionElem::Index(l) => {
          let _ = write!(s, ",[\"i\",{}]", l.as_usize());
        }
        ProjectionElem::ConstantIndex { offset, from_end, .. } => {
          let _ = write!(s, ",[\"c\",{},{}]", offset, from_end);
        }
        ProjectionElem::Subslice { from, to, from_end } => {
          let _ = write!(s, ",[\"s\",{},{},{}]", from, to, from_end);
        }
        ProjectionElem::Downcast(n, v) => {
          let name = match pt.ty.kind() {
            ty::Adt(a, _) => a.variant(v).name.to_string(),
            _ => n.map(|n| n.to_string()).unwrap_or_default(),
          };
          let _ = write!(s, ",[\"d\",{}]", esc(&name));
        }
        _ => s.push_str(",\"?\""),
      }
      pt = pt.projection_ty(tcx, el);
    }
    s.push(']');
    s
  }

  fn fnref(&mut self, b: &Body<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
    let tcx = self.tcx;
    let p = self.path(d);
    let env = TypingEnv::post_analysis(tcx, b.source.def_id());
    let mut res = None;
    let mut st = None;
    let is_trait_item = tcx.trait_of_assoc(d).is_some();
    if is_trait_item && args.len() > 0 {
      if let Some(t) = args.types().next() {
        st = Some(self.tystr(t));
      }
      let eargs = tcx.erase_and_anonymize_regions(args);
      if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, eargs) {
        let rd = i.def_id();
        if rd != d {
          res = Some(self.path(rd));
        }
      }
    }
    let targs: Vec<String> = args.types().map(|t| self.tystr(t)).collect();
    let mut s = format!("[\"fn\",{}", esc(&p));
    s.push(',');
    s.push_str(&res.map(|r| esc(&r)).unwrap_or("null".into()));
    s.push(',');
    s.push_str(&st.map(|r| esc(&r)).unwrap_or("null".into()));
    s.push_str(",[");
    s.push_str(&targs.iter().map(|t| esc(t)).collect::<Vec<_>>().join(","));
    s.push_str("]]");
    s
  }

  fn konst(&mut self, b: &Body<'tcx>, c: &ConstOperand<'tcx>) -> String {
    let tcx = self.tcx;
    let t = c.const_.ty();
    match t.kind() {
      ty::FnDef(d, args) => return self.fnref(b, *d, args.skip_binder()),
      ty::Closure(d, _) => {
        let p = self.path(*d);
        return format!("[\"closure\",{}]", esc(&p));
      }
      _ => {}
    }
    let tyi = self.ty(t);
    if let Const::Unevaluated(u, _) = c.const_ {
      if let Some(pr) = u.promoted {
        let p = self.path(u.def);
        return format!("[\"promoted\",{},{}]", esc(&format!("{p}::{{promoted#{}}}", pr.as_usize())), tyi);
      }
    }
    let named = match c.const_ {
      Const::Unevaluated(u, _) => Some(self.path(u.def)),
      _ => None,
    };
    let env = TypingEnv::post_analysis(tcx, b.source.def_id());
    let mut val = None;
    let v = match c.const_ {
      Const::Val(v, _) => Some(v),
      Const::Unevaluated(u, _) => {
        let generic = u.args.iter().any(|a| {
          use rustc_middle::ty::TypeVisitableExt;
          a.has_param()
        });
        if generic { None } else { c.const_.eval(tcx, env, c.span).ok() }
      }
      Const::Ty(..) => c.const_.eval(tcx, env, c.span).ok(),
    };
    if let Some(v) = v {
      match t.kind() {
        ty::Ref(_, inner, _) if inner.is_str() => {
          if let ConstValue::Slice { .. } | ConstValue::Indirect { .. } = v {
            if let Some(bs) = v.try_get_slice_bytes_for_diagnostics(tcx) {
              val = Some(esc(&String::from_utf8_lossy(bs)));
            }
          }
        }
        ty::Ref(_, inner, _)
          if matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) =>
        {
          if let ConstValue::Slice { .. } | ConstValue::Indirect { .. } = v {
            if let Some(bs) = v.try_get_slice_bytes_for_diagnostics(tcx) {
              let l: Vec<String> = bs.iter().map(|b| b.to_string()).collect();
              val = Some(format!("[{}]", l.join(",")));
            }
          }
        }
        ty::Ref(_, inner, _)
          if matches!(inner.kind(), ty::Array(e, _) if *e == tcx.types.u8) =>
        {
          if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
            let (prov, off) = p.prov_and_relative_offset();
            if let ty::Array(_, n) = inner.kind() {
              if let (Some(n), rustc_middle::mir::interpret::GlobalAlloc::Memory(m)) =
                (n.try_to_target_usize(tcx), tcx.global_alloc(prov.alloc_id()))
              {
                let s = off.bytes() as usize;
                let bs = m
                  .inner()
                  .inspect_with_uninit_and_ptr_outside_interpreter(s..s + n as usize);
                let l: Vec<String> = bs.iter().map(|b| b.to_string()).collect();
                val = Some(format!("[{}]", l.join(",")));
              }
            }
          }
        }
        ty::Bool => val = v.try_to_bool().map(|b| b.to_string()),
        ty::Char => {
          val = v
            .try_to_scalar_int()
            .and_then(|i| char::from_u32(i.to_u32()))
            .map(|c| esc(&c.to_string()))
        }
        ty::Int(_) => {
          val = v.try_to_scalar_int().map(|i| {
            let sz = i.size();
            i.to_int(sz).to_string()
          })
        }
        ty::Uint(_) => {
          val = v.try_to_scalar_int().map(|i| {
            let sz = i.size();
            i.to_uint(sz).to_string()
          })
        }
        ty::Adt(a, _) if a.is_enum() => {
          // fieldless enum constants
          if a.variants().iter().all(|v| v.fields.is_empty()) {
            if let Some(i) = v.try_to_scalar_int() {
              let bits = i.to_uint(i.size());
              for (vi, d) in a.discriminants(tcx) {
                if d.val == bits {
                  val = Some(esc(&a.variant(vi).name.to_string()));
                }
              }
            }
          }
        }
        _ => {}
      }
    }
    let mut s = format!("[\"k\",{},{}", tyi, val.unwrap_or("null".into()));
    if let Some(n) = named {
      let _ = write!(s, ",{}", esc(&n));
    }
    s.push(']');
    s
  }

  fn op(&mut self, b: &Body<'tcx>, o: &Operand<'tcx>) -> String {
    match o {
      Operand::Copy(p) => format!("[\"p\",{}]", self.place(b, *p)),
      Operand::Move(p) => format!("[\"m\",{}]", self.place(b, *p)),
      Operand::Constant(c) => self.konst(b, c),
      #[allow(unreachable_patterns)]
      _ => "[\"k\",0,false,\"rtcheck\"]".into(),
    }
  }

  fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
    match r {
      Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(b, o)),
      Rvalue::Repeat(o, n) => {
        let n = n.try_to_target_usize(self.tcx).map(|n| n.to_string()).unwrap_or("null".into());
        format!("[\"repeat\",{},{}]", self.op(b, o), n)
      }
      Rvalue::Ref(_, k, p) => {
        let m = matches!(k, BorrowKind::Mut { .. });
        format!("[\"ref\",{},{}]", self.place(b, *p), m)
      }
      Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(b, *p)),
      Rvalue::Reborrow(_, _, p) => format!("[\"ref\",{},true]", self.place(b, *p)),
      Rvalue::CopyForDeref(p) => format!("[\"use\",[\"p\",{}]]", self.place(b, *p)),
      Rvalue::Cast(k, o, t) => {
        let t = self.ty(*t);
        let from = o.ty(b, self.tcx);
        let from = self.ty(from);
        let k = match k {
          CastKind::IntToInt => "int",
          CastKind::PointerCoercion(..) => "ptr",
          CastKind::PointerExposeProvenance => "expose",
          _ => "other",
        };
        format!("[\"cast\",{},{},{},\"{}\"]", self.op(b, o), t, from, k)
      }
      Rvalue::BinaryOp(bo, ab) => {
        let t = ab.0.ty(b, self.tcx);
        let t = self.ty(t);
        format!("[\"bin\",\"{:?}\",{},{},{}]", bo, self.op(b, &ab.0), self.op(b, &ab.1), t)
      }
      Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(b, o)),
      Rvalue::Discriminant(p) => {
        let t = p.ty(b, self.tcx).ty;
        let tn = self.self_name(t);
        format!("[\"discr\",{},{}]", self.place(b, *p), esc(&tn))
      }
      Rvalue::Aggregate(k, ops) => {
        let os: Vec<String> = ops.iter().map(|o| self.op(b, o)).collect();
        let k = match &**k {
          AggregateKind::Array(_) => "[\"array\"]".to_string(),
          AggregateKind::Tuple => "[\"tuple\"]".to_string(),
          AggregateKind::Adt(d, v, _, _, active) => {
            let a = self.tcx.adt_def(*d);
            let var = a.variant(*v);
            let p = self.path(*d);
            let fs: Vec<String> = match active {
              Some(f) => vec![esc(&var.fields[*f].name.to_string())],
              None => var.fields.iter().map(|f| esc(&f.name.to_string())).collect(),
            };
            format!("[\"adt\",{},{},[{}]]", esc(&p), esc(&var.name.to_string()), fs.join(","))
          }
          AggregateKind::Closure(d, _) => {
            let p = self.path(*d);
            let names = d
              .as_local()
              .map(|l| self.tcx.closure_saved_names_of_captured_variables(l.to_def_id()))
              .map(|n| n.iter().map(|s| esc(&s.to_string())).collect::<Vec<_>>().join(","))
              .unwrap_or_default();
            format!("[\"closure\",{},[{}]]", esc(&p), names)
          }
          _ => "[\"other\"]".into(),
        };
        format!("[\"agg\",{},[{}]]", k, os.join(","))
      }
      _ => "[\"other\"]".into(),
    }
  }

  fn body(&mut self, b: &Body<'tcx>, path: &str, id: DefId) -> String {
    let tcx = self.tcx;
    let mut o = String::new();
    let sp = b.span;
    let file = self.file(sp);
    let _ = write!(
      o,
      "{{\"path\":{},\"file\":{},\"line\":{},\"argc\":{},\"kind\":{}",
      esc(path),
      esc(&file),
      self.line(sp),
      b.arg_count,
      esc(&format!("{:?}", tcx.def_kind(id)))
    );
    if tcx.def_kind(id) == DefKind::Closure {
      let pp = self.path(tcx.parent(id));
      let _ = write!(o, ",\"parent\":{}", esc(&pp));
    }
    if matches!(tcx.def_kind(id), DefKind::Fn | DefKind::AssocFn) {
      let v = tcx.visibility(id);
      let _ = write!(o, ",\"pub\":{}", v.is_public());
    }
    o.push_str(",\"locals\":[");
    let mut names: HashMap<usize, String> = HashMap::new();
    let mut upv = Vec::new();
    for v in b.var_debug_info.iter() {
      if let VarDebugInfoContents::Place(p) = v.value {
        if p.projection.is_empty() {
          names.entry(p.local.as_usize()).or_insert(v.name.to_string());
        } else {
          upv.push(format!("[{},{}]", esc(&v.name.to_string()), self.place(b, p)));
        }
      }
    }
    for (i, d) in b.local_decls.iter_enumerated() {
      if i.as_usize() > 0 {
        o.push(',');
      }
      let t = self.ty(d.ty);
      let n = names.get(&i.as_usize()).map(|s| esc(s)).unwrap_or("null".into());
      let _ = write!(o, "[{},{}]", t, n);
    }
    let _ = write!(o, "],\"vars\":[{}],\"blocks\":[", upv.join(","));
    for (bi, bb) in b.basic_blocks.iter_enumerated() {
      if bi.as_usize() > 0 {
        o.push(',');
      }
      o.push_str("{\"s\":[");
      let mut first = true;
      for st in &bb.statements {
        let s = match &st.kind {
          StatementKind::Assign(bx) => {
            let p = self.place(b, bx.0);
            let r = self.rvalue(b, &bx.1);
            format!("[{},{},{}]", p, r, self.line(st.source_info.span))
          }
          StatementKind::SetDiscriminant { place, variant_index } => {
            let p = self.place(b, **place);
            format!("[{},[\"setdiscr\",{}],{}]", p, variant_index.as_usize(), self.line(st.source_info.span))
          }
          StatementKind::StorageDead(l) => format!("[[{}],[\"dead\"],0]", l.as_usize()),
          _ => continue,
        };
        if !first {
          o.push(',');
        }
        first = false;
        o.push_str(&s);
      }
      o.push_str("],\"t\":");
      let t = bb.terminator();
      let line = self.line(t.source_info.span);
      let ts = match &t.kind {
        TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
        TerminatorKind::SwitchInt { discr, targets } => {
          let t = discr.ty(b, tcx);
          let ti = self.ty(t);
          let l: Vec<String> = targets
            .iter()
            .map(|(v, bb)| format!("[{},{}]", v, bb.as_usize()))
            .collect();
          format!(
            "[\"switch\",{},[{}],{},{},{}]",
            self.op(b, discr),
            l.join(","),
            targets.otherwise().as_usize(),
            ti,
            line
          )
        }
        TerminatorKind::Return => "[\"return\"]".into(),
        TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
        TerminatorKind::Drop { place, target, .. } => {
          let t = place.ty(b, tcx).ty;
          let ti = self.ty(t);
          format!("[\"drop\",{},{},{},{}]", self.place(b, *place), target.as_usize(), ti, line)
        }
        TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
          let f = self.op(b, func);
          let a: Vec<String> = args.iter().map(|a| self.op(b, &a.node)).collect();
          let d = self.place(b, *destination);
          let m = self
            .macro_name(t.source_info.span)
            .map(|m| esc(&m))
            .unwrap_or("null".into());
          let _ = fn_span;
          format!(
            "[\"call\",{},[{}],{},{},{},{}]",
            f,
            a.join(","),
            d,
            target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
            line,
            m
          )
        }
        TerminatorKind::Assert { cond, expected, msg, target, .. } => {
          let k = match &**msg {
            AssertKind::BoundsCheck { .. } => "bounds".to_string(),
            AssertKind::Overflow(op, l, _) => {
              let t = l.ty(b, tcx);
              format!("overflow:{:?}:{}", op, self.tystr(t))
            }
            AssertKind::OverflowNeg(_) => "overflow:Neg:".to_string(),
            AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => "div0".to_string(),
            _ => "other".to_string(),
          };
          format!(
            "[\"assert\",{},{},{},{},{}]",
            self.op(b, cond),
            expected,
            esc(&k),
            target.as_usize(),
            line
          )
        }
        TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
        TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
        _ => "[\"unreachable\"]".into(),
      };
      o.push_str(&ts);
      o.push('}');
    }
    o.push_str("]}");
    o
  }
}

struct Cb;

impl Callbacks for Cb {
  fn config(&mut self, config: &mut interface::Config) {
    config.opts.unstable_opts.mir_opt_level = Some(0);
    config.opts.debug_assertions = false;
    config.opts.cg.overflow_checks = Some(true);
    config.opts.cg.panic = Some(rustc_session_panic());
  }
  fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
    let dir = match std::env::var("SA_DUMP_DIR") {
      Ok(d) => d,
      Err(_) => return Compilation::Continue,
    };
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    if krate == "___" || krate.starts_with("build_script") {
      return Compilation::Continue;
    }
    let is_bin = tcx.entry_fn(()).is_some();
    let mut cx = Cx { tcx, tys: HashMap::new(), tylist: vec![], paths: HashMap::new() };
    let mut out = String::from("{\"crate\":");
    out.push_str(&esc(&krate));
    out.push_str(",\"fns\":[");
    let mut first = true;
    let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    owners.sort_by_key(|d| tcx.def_span(*d).lo());
    for ld in owners {
      let d = ld.to_def_id();
      let kind = tcx.def_kind(d);
      let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
      let is_const = matches!(
        kind,
        DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }
      );
      if !is_fn && !is_const {
        continue;
      }
      let path = cx.path(d);
      let body = if is_fn { tcx.optimized_mir(d) } else { tcx.mir_for_ctfe(d) };
      let s = cx.body(body, &path, d);
      if !first {
        out.push(',');
      }
      first = false;
      out.push('\n');
      out.push_str(&s);
      for (pi, pb) in tcx.promoted_mir(d).iter_enumerated() {
        let s = cx.body(pb, &format!("{path}::{{promoted#{}}}", pi.as_usize()), d);
        out.push_str(",\n");
        out.push_str(&s);
      }
    }
    out.push_str("],\"adts\":[");
    let mut first = true;
    let mut impls = String::new();
    let mut traits = String::new();
    for id in tcx.hir_crate_items(()).definitions() {
      let d = id.to_def_id();
      match tcx.def_kind(d) {
        DefKind::Struct | DefKind::Enum | DefKind::Union => {
          let a = tcx.adt_def(d);
          let p = cx.path(d);
          if !first {
            out.push(',');
          }
          first = false;
          let discr: HashMap<_, _> = if a.is_enum() {
            a.discriminants(tcx).map(|(v, d)| (v, d.val)).collect()
          } else {
            HashMap::new()
          };
          let vs: Vec<String> = a
            .variants()
            .iter_enumerated()
            .map(|(vi, v)| {
              let fs: Vec<String> = v
                .fields
                .iter()
                .map(|f| {
                  let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                  let ti = cx.ty(t);
                  format!("[{},{},{}]", esc(&f.name.to_string()), ti, f.vis.is_public())
                })
                .collect();
              format!(
                "[{},{},[{}]]",
                esc(&v.name.to_string()),
                discr.get(&vi).map(|d| d.to_string()).unwrap_or("0".into()),
                fs.join(",")
              )
            })
            .collect();
          let f = cx.file(tcx.def_span(d));
          let l = cx.line(tcx.def_span(d));
          let _ = write!(
            out,
            "\n{{\"path\":{},\"enum\":{},\"variants\":[{}],\"file\":{},\"line\":{}}}",
            esc(&p),
            a.is_enum(),
            vs.join(","),
            esc(&f),
            l
          );
        }
        DefKind::Impl { of_trait } => {
          if of_trait {
            let tr = tcx.impl_trait_ref(d).skip_binder();
            let tp = cx.path(tr.def_id);
            let st = cx.self_name(tr.self_ty());
            let derived = tcx.def_span(d).from_expansion();
            let ms: Vec<String> = tcx
              .associated_items(d)
              .in_definition_order()
              .filter_map(|i| {
                let ti = i.trait_item_def_id()?;
                Some(format!("[{},{}]", esc(&cx.path(ti)), esc(&cx.path(i.def_id))))
              })
              .collect();
            if !impls.is_empty() {
              impls.push(',');
            }
            let _ = write!(
              impls,
              "\n{{\"trait\":{},\"self\":{},\"derived\":{},\"methods\":[{}]}}",
              esc(&tp),
              esc(&st),
              derived,
              ms.join(",")
            );
          }
        }
        DefKind::Trait => {
          let p = cx.path(d);
          let ms: Vec<String> = tcx
            .associated_items(d)
            .in_definition_order()
            .map(|i| format!("[{},{}]", esc(&cx.path(i.def_id)), i.defaultness(tcx).has_value()))
            .collect();
          if !traits.is_empty() {
            traits.push(',');
          }
          let _ = write!(traits, "\n{{\"path\":{},\"items\":[{}]}}", esc(&p), ms.join(","));
        }
        _ => {}
      }
    }
    let _ = write!(out, "],\"impls\":[{}],\"traits\":[{}]", impls, traits);
    // variant tables of foreign enums used in discriminant reads are not needed: std Option/Result are known
    let _ = write!(
      out,
      ",\"types\":[{}]",
      cx.tylist.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
    );
    // explicit unsafe blocks / fns
    let mut v = UnsafeFinder { tcx, found: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut v);
    let l: Vec<String> = v
      .found
      .iter()
      .map(|sp| format!("[{},{}]", esc(&cx.file(*sp)), cx.line(*sp)))
      .collect();
    let _ = write!(out, ",\"unsafe\":[{}],\"src\":{}}}", l.join(","), esc(&cx.file(tcx.hir_span(rustc_hir::CRATE_HIR_ID))));
    let kind = if is_bin { "bin" } else { "lib" };
    let f = format!("{dir}/{krate}.{kind}.json");
    std::fs::write(&f, out).expect("write dump");
    Compilation::Continue
  }
}

struct UnsafeFinder<'tcx> {
  tcx: TyCtxt<'tcx>,
  found: Vec<Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeFinder<'tcx> {
  type NestedFilter = rustc_middle::hir::nested_filter::All;
  fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
    self.tcx
  }
  fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
    if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
      self.found.push(b.span);
    }
    rustc_hir::intravisit::walk_block(self, b);
  }
}

fn rustc_session_panic() -> rustc_target_panic::PanicStrategy {
  rustc_target_panic::PanicStrategy::Abort
}
extern crate rustc_target as rustc_target_crate;
mod rustc_target_panic {
  pub use rustc_target_crate::spec::PanicStrategy;
}

fn main() -> std::process::ExitCode {
  let mut args: Vec<String> = std::env::args().collect();
  // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
  if args.len() > 1 && args[1].ends_with("rustc") {
    args.remove(1);
  }
  rustc_driver::install_ice_hook("sa-driver", |_| ());
  rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
