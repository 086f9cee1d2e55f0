//! Facts about the library crate itself, before monomorphisation: every function with its
//! signature, safety and visibility, every type definition with its fields, every static, and a
//! light form of every body (assignments, casts, calls, branches) for the effect rules.
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt};
use rustc_span::Span;

use crate::dump::{arr, js};

fn span(tcx: TyCtxt<'_>, sp: Span) -> String {
    let sp = sp.source_callsite();
    let l = tcx.sess.source_map().lookup_char_pos(sp.lo());
    format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
}

fn region(r: ty::Region<'_>) -> String {
    // "'^0.Named(DefId(0:1199 ~ householder[3b8d]::matrix::...::'a))" -> "'a#1199"
    let s = format!("{:?}", r);
    if let (Some(i), Some(j)) = (s.find("DefId("), s.find(" ~ ")) {
        let name = s.trim_end_matches(')').rsplit("::").next().unwrap_or("").to_string();
        return format!("{}#{}", name, &s[i + 6..j]);
    }
    s
}

fn tyj<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, depth: usize) -> String {
    if depth > 12 {
        return format!("{{\"k\":\"other\",\"s\":{}}}", js(&t.to_string()));
    }
    let go = |x| tyj(tcx, x, depth + 1);
    match t.kind() {
        ty::Ref(r, e, m) => format!("{{\"k\":\"ref\",\"r\":{},\"m\":{},\"e\":{}}}", js(&region(*r)), m.is_mut(), go(*e)),
        ty::RawPtr(e, m) => format!("{{\"k\":\"ptr\",\"m\":{},\"e\":{}}}", m.is_mut(), go(*e)),
        ty::Adt(d, args) => format!(
            "{{\"k\":\"adt\",\"p\":{},\"args\":{}}}",
            js(&tcx.def_path_str(d.did())),
            arr(args.iter().map(|a| match a.kind() {
                GenericArgKind::Lifetime(r) => format!("{{\"k\":\"region\",\"r\":{}}}", js(&region(r))),
                GenericArgKind::Type(x) => go(x),
                GenericArgKind::Const(c) => format!("{{\"k\":\"const\",\"s\":{}}}", js(&c.to_string())),
            }))
        ),
        ty::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{}}}", go(*e)),
        ty::Array(e, _) => format!("{{\"k\":\"array\",\"e\":{}}}", go(*e)),
        ty::Tuple(ts) => format!("{{\"k\":\"tuple\",\"f\":{}}}", arr(ts.iter().map(go))),
        ty::Param(p) => format!("{{\"k\":\"param\",\"s\":{}}}", js(p.name.as_str())),
        ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
            format!("{{\"k\":\"prim\",\"s\":{}}}", js(&t.to_string()))
        }
        ty::FnDef(d, _) => format!("{{\"k\":\"fndef\",\"s\":{}}}", js(&tcx.def_path_str(*d))),
        ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{}}}", js(&t.to_string())),
        ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", js(&t.to_string())),
        ty::Closure(d, _) => format!("{{\"k\":\"closure\",\"s\":{}}}", js(&tcx.def_path_str(*d))),
        ty::Alias(..) => format!("{{\"k\":\"alias\",\"s\":{}}}", js(&t.to_string())),
        _ => format!("{{\"k\":\"other\",\"s\":{}}}", js(&t.to_string())),
    }
}

fn body<'tcx>(tcx: TyCtxt<'tcx>, id: LocalDefId) -> String {
    let b: &Body<'tcx> = tcx.optimized_mir(id.to_def_id());
    let locals = |p: &Place<'tcx>| {
        let mut v = vec![p.local.as_usize()];
        for e in p.projection.iter() {
            if let ProjectionElem::Index(l) = e {
                v.push(l.as_usize());
            }
        }
        v
    };
    let nums = |v: Vec<usize>| arr(v.into_iter().map(|x| x.to_string()));
    let ops = |o: &Operand<'tcx>| -> (Vec<usize>, String) {
        match o {
            Operand::Copy(p) | Operand::Move(p) => (locals(p), "".into()),
            Operand::Constant(c) => {
                let s = c.check_static_ptr(tcx).map(|d| tcx.def_path_str(d)).unwrap_or_default();
                (vec![], s)
            }
            _ => (vec![], "".into()),
        }
    };
    let mut blocks = vec![];
    for bb in b.basic_blocks.iter() {
        let mut st = vec![];
        for s in &bb.statements {
            if let StatementKind::Assign(a) = &s.kind {
                let (pl, rv) = (&a.0, &a.1);
                let mut src: Vec<usize> = vec![];
                let mut statics: Vec<String> = vec![];
                let mut kind = String::from("use");
                let mut extra = String::from("null");
                let mut add = |o: &Operand<'tcx>, src: &mut Vec<usize>| {
                    let (v, s) = ops(o);
                    src.extend(v);
                    if !s.is_empty() {
                        statics.push(s);
                    }
                };
                match rv {
                    Rvalue::Use(o, ..) => add(o, &mut src),
                    Rvalue::Repeat(o, _) => add(o, &mut src),
                    Rvalue::Ref(_, bk, p) => {
                        kind = if matches!(bk, BorrowKind::Mut { .. }) { "refmut" } else { "ref" }.into();
                        src.extend(locals(p));
                        let base = b.local_decls[p.local].ty;
                        extra = format!("[{},{}]", tyj(tcx, base, 0), p.projection.iter().filter(|e| matches!(e, ProjectionElem::Deref)).count());
                    }
                    Rvalue::RawPtr(m, p) => {
                        kind = if matches!(m, RawPtrKind::Mut) { "rawmut" } else { "rawconst" }.into();
                        src.extend(locals(p));
                        let base = b.local_decls[p.local].ty;
                        extra = format!("[{},{}]", tyj(tcx, base, 0), p.projection.iter().filter(|e| matches!(e, ProjectionElem::Deref)).count());
                    }
                    Rvalue::Cast(k, o, t) => {
                        kind = "cast".into();
                        add(o, &mut src);
                        extra = format!("[{},{},{}]", js(&format!("{:?}", k)), tyj(tcx, o.ty(b, tcx), 0), tyj(tcx, *t, 0));
                    }
                    Rvalue::BinaryOp(op, x) => {
                        kind = format!("bin:{:?}", op);
                        add(&x.0, &mut src);
                        add(&x.1, &mut src);
                    }
                    Rvalue::UnaryOp(_, o) => add(o, &mut src),
                    Rvalue::Discriminant(p) => src.extend(locals(p)),
                    Rvalue::Aggregate(_, os) => {
                        kind = "aggregate".into();
                        for o in os.iter() {
                            add(o, &mut src);
                        }
                    }
                    _ => kind = format!("other:{:?}", std::mem::discriminant(rv)),
                }
                let mut rawderef = false;
                let mut pt = b.local_decls[pl.local].ty;
                if !pl.projection.is_empty() {
                    for (n, e) in pl.projection.iter().enumerate() {
                        if matches!(e, ProjectionElem::Deref) && pt.is_raw_ptr() {
                            rawderef = true;
                        }
                        let _ = n;
                        pt = Place::ty_from(pl.local, &pl.projection[..n + 1], b, tcx).ty;
                    }
                }
                st.push(format!(
                    "{{\"d\":{},\"k\":{},\"s\":{},\"x\":{},\"st\":{},\"at\":{},\"rd\":{},\"dp\":{}}}",
                    pl.local.as_usize(),
                    js(&kind),
                    nums(src),
                    extra,
                    arr(statics.iter().map(|x| js(x))),
                    js(&span(tcx, s.source_info.span)),
                    rawderef,
                    pl.projection.len()
                ));
            }
        }
        let t = bb.terminator();
        let at = js(&span(tcx, t.source_info.span));
        let tm = match &t.kind {
            TerminatorKind::SwitchInt { discr, targets } => format!(
                "{{\"k\":\"switch\",\"s\":{},\"t\":{}}}",
                nums(ops(discr).0),
                nums(targets.all_targets().iter().map(|x| x.as_usize()).collect())
            ),
            TerminatorKind::Assert { cond, target, msg, .. } => format!(
                "{{\"k\":\"assert\",\"s\":{},\"t\":[{}],\"m\":{},\"at\":{}}}",
                nums(ops(cond).0),
                target.as_usize(),
                js(&format!("{:?}", std::mem::discriminant(&**msg))),
                at
            ),
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let ft = func.ty(b, tcx);
                let (path, uns, ext) = match ft.kind() {
                    ty::FnDef(d, _) => (
                        tcx.def_path_str(*d),
                        !tcx.fn_sig(*d).skip_binder().safety().is_safe(),
                        tcx.crate_name(d.krate).to_string(),
                    ),
                    ty::FnPtr(_, h) => ("<fn pointer>".into(), !h.safety().is_safe(), "".into()),
                    _ => ("?".into(), false, "".into()),
                };
                let a = arr(args.iter().map(|x| {
                    let (v, s) = ops(&x.node);
                    format!("{{\"s\":{},\"st\":{},\"t\":{}}}", nums(v), js(&s), tyj(tcx, x.node.ty(b, tcx), 0))
                }));
                format!(
                    "{{\"k\":\"call\",\"f\":{},\"u\":{},\"crate\":{},\"a\":{},\"d\":{},\"t\":{},\"at\":{}}}",
                    js(&path),
                    uns,
                    js(&ext),
                    a,
                    destination.local.as_usize(),
                    match target { Some(x) => format!("[{}]", x.as_usize()), None => "[]".into() },
                    at
                )
            }
            TerminatorKind::Drop { target, .. } => format!("{{\"k\":\"drop\",\"t\":[{}]}}", target.as_usize()),
            TerminatorKind::InlineAsm { .. } => format!("{{\"k\":\"asm\",\"t\":[],\"at\":{}}}", at),
            k => format!("{{\"k\":\"other\",\"t\":{}}}", nums(k.successors().map(|x| x.as_usize()).collect())),
        };
        blocks.push(format!("{{\"s\":[{}],\"t\":{}}}", st.join(","), tm));
    }
    format!(
        "{{\"argc\":{},\"locals\":{},\"blocks\":[{}]}}",
        b.arg_count,
        arr(b.local_decls.iter().map(|l| js(&l.ty.to_string()))),
        blocks.join(",")
    )
}

pub fn facts(tcx: TyCtxt<'_>) -> String {
    let ev = tcx.effective_visibilities(());
    let mut fns = vec![];
    let mut statics = vec![];
    let mut adts = vec![];
    let mut impls = vec![];
    let path = |d: DefId| tcx.def_path_str(d);
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            k @ (DefKind::Fn | DefKind::AssocFn) => {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                let s = sig.skip_binder();
                let parent = tcx.parent(d);
                let (mut tr, mut selfty) = (String::new(), String::from("null"));
                if k == DefKind::AssocFn {
                    match tcx.def_kind(parent) {
                        DefKind::Trait => tr = path(parent),
                        DefKind::Impl { of_trait } => {
                            if of_trait {
                                tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip().to_string();
                            }
                            selfty = tyj(tcx, tcx.type_of(parent).instantiate_identity().skip_norm_wip(), 0);
                        }
                        _ => {}
                    }
                }
                let mut outlives = vec![];
                for c in tcx.param_env(d).caller_bounds() {
                    if let ty::ClauseKind::RegionOutlives(o) = c.kind().skip_binder() {
                        outlives.push(format!("[{},{}]", js(&region(o.0)), js(&region(o.1))));
                    }
                }
                let has = tcx.is_mir_available(d);
                fns.push(format!(
                    "{{\"p\":{},\"pub\":{},\"unsafe\":{},\"trait\":{},\"self\":{},\"in\":{},\"out\":{},\"outlives\":{},\"at\":{},\"body\":{}}}",
                    js(&path(d)),
                    ev.is_reachable(id) || tr != "",
                    !s.safety().is_safe(),
                    js(&tr),
                    selfty,
                    arr(s.inputs().iter().map(|t| tyj(tcx, *t, 0))),
                    tyj(tcx, s.output(), 0),
                    arr(outlives),
                    js(&span(tcx, tcx.def_span(d))),
                    if has { body(tcx, id) } else { "null".into() }
                ));
            }
            DefKind::Closure => {
                fns.push(format!(
                    "{{\"p\":{},\"pub\":false,\"unsafe\":false,\"trait\":\"\",\"self\":null,\"in\":[],\"out\":null,\"at\":{},\"body\":{}}}",
                    js(&path(d)),
                    js(&span(tcx, tcx.def_span(d))),
                    if tcx.is_mir_available(d) { body(tcx, id) } else { "null".into() }
                ));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                statics.push(format!(
                    "{{\"p\":{},\"m\":{},\"freeze\":{},\"t\":{},\"tl\":{},\"at\":{}}}",
                    js(&path(d)),
                    mutability.is_mut(),
                    t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized()),
                    tyj(tcx, t, 0),
                    tcx.is_thread_local_static(d),
                    js(&span(tcx, tcx.def_span(d)))
                ));
            }
            DefKind::Const { .. } => {
                // thread_local! expands to a constant that holds the key
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                statics.push(format!(
                    "{{\"p\":{},\"m\":false,\"const\":true,\"freeze\":true,\"t\":{},\"tl\":{},\"at\":{}}}",
                    js(&path(d)),
                    tyj(tcx, t, 0),
                    t.to_string().contains("LocalKey"),
                    js(&span(tcx, tcx.def_span(d)))
                ));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(d);
                let fs: Vec<String> = a
                    .all_fields()
                    .map(|f| {
                        format!(
                            "{{\"n\":{},\"t\":{},\"pub\":{}}}",
                            js(f.name.as_str()),
                            tyj(tcx, tcx.type_of(f.did).instantiate_identity().skip_norm_wip(), 0),
                            f.vis.is_public()
                        )
                    })
                    .collect();
                let g = tcx.generics_of(d);
                let te = ty::TypingEnv::post_analysis(tcx, d);
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let cells: Vec<String> = a
                    .all_fields()
                    .filter(|f| {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        ft.walk().any(|x| match x.kind() {
                            GenericArgKind::Type(y) => match y.kind() {
                                ty::Adt(z, _) => !z.did().is_local() && !tcx.type_of(z.did()).instantiate_identity().skip_norm_wip().is_freeze(tcx, ty::TypingEnv::post_analysis(tcx, z.did())) && cell(tcx, y, 0),
                                _ => false,
                            },
                            _ => false,
                        })
                    })
                    .map(|f| js(f.name.as_str()))
                    .collect();
                let _ = (te, t);
                adts.push(format!(
                    "{{\"p\":{},\"pub\":{},\"generics\":{},\"fields\":{},\"cells\":{},\"at\":{}}}",
                    js(&path(d)),
                    ev.is_reachable(id),
                    arr(g.own_params.iter().map(|p| js(p.name.as_str()))),
                    arr(fs),
                    arr(cells),
                    js(&span(tcx, tcx.def_span(d)))
                ));
            }
            DefKind::Impl { of_trait: true } => {
                let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                impls.push(format!(
                    "{{\"t\":{},\"tr\":{},\"unsafe\":{},\"neg\":{},\"at\":{}}}",
                    tyj(tcx, tr.self_ty(), 0),
                    js(&path(tr.def_id)),
                    tcx.impl_trait_header(d).safety.is_unsafe(),
                    matches!(tcx.impl_polarity(d), ty::ImplPolarity::Negative),
                    js(&span(tcx, tcx.def_span(d)))
                ));
            }
            _ => {}
        }
    }
    format!(
        "{{\"fns\":[{}],\n\"statics\":[{}],\n\"adts\":[{}],\n\"impls\":[{}]}}",
        fns.join(",\n"),
        statics.join(",\n"),
        adts.join(",\n"),
        impls.join(",\n")
    )
}

/// does the type hold an UnsafeCell directly (not behind a parameter)
fn cell<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, depth: usize) -> bool {
    if depth > 6 {
        return false;
    }
    match t.kind() {
        ty::Adt(d, args) => {
            d.is_unsafe_cell() || d.all_fields().any(|f| cell(tcx, f.ty(tcx, args).skip_norm_wip(), depth + 1))
        }
        ty::Tuple(ts) => ts.iter().any(|x| cell(tcx, x, depth + 1)),
        ty::Array(e, _) => cell(tcx, *e, depth + 1),
        _ => false,
    }
}
