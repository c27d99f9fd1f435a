# writes the contract section of units/conv.vu
out=[]
def w(s): out.append(s)
def std_spec(rank, extra_req="", tree="elem.el()", frame=True, cfg="spec"):
    return f"""[C13,C14] @attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::loop_isolation(false)]
@spec
[C16]    requires
[C16]        wf({tree}, {cfg}), ready(*old(self), height({tree})),{extra_req}
[C15]    requires
[C15]        wf({tree}, {cfg}),{extra_req} /*aux*/
    ensures
[C13]        r is Ok ==> same(*final(self), *old(self)),
[C14,C15,C16]        r is Ok ==> same(*final(self), *old(self)), /*aux*/
"""
def loop(k, it="vx_it", ch="kids(elem.el())", st="vx_c0", cl="", extra=""):
    return f"""@beforeloop {k}
let ghost vx_c{k} = *self;
@loop {k}
    invariant
        walk({ch}, els({it}.rest())),
[C13]        same(*self, vx_c{k}),
[C14,C15,C16]        same(*self, vx_c{k}), /*aux*/
{cl}{extra}    ensures {it}.rest().len() == 0,
    decreases {it}.rest().len(),
"""
A="[C13,C14] @attr #[verifier::exec_allows_no_decreases_clause]\n@attr #[verifier::loop_isolation(false)]\n"
A0="@attr #[verifier::exec_allows_no_decreases_clause]\n@attr #[verifier::loop_isolation(false)]\n"
def fn(name, rank, tree="elem.el()", kind=None, clean=True, req=(), ens=(), cfg="spec", wf=True, dec=True, body="", hdr="conv Converter::", extra_ens="", rec=True, tx=True, hide=False, opt="", more=()):
    s=f"@@ fn {hdr}{name} ret=r{opt}\n"
    s+="[C13,C14,C15] @attr #[verifier::exec_allows_no_decreases_clause]\n" if rec else ""
    s+="@attr #[verifier::loop_isolation(false)]\n@spec\n"
    r16=[];r15=[]
    if wf:
        r16.append(f"wf({tree}, {cfg})"); r15.append(f"wf({tree}, {cfg})")
        if rec: r16.append(f"ready(*old(self), height({tree}))")
    elif rec: pass
    if kind:
        r16.append(f"kind_of({tree}) == {kind}"); r15.append(f"kind_of({tree}) == {kind}")
    for p,x in req:
        if 16 in p: r16.append(x)
        if 15 in p: r15.append(x)
    r14=[x for p,x in req if 14 in p]
    if r14: s+="[C14]    requires\n"
    for x in r14: s+=f"[C14]        {x}, /*aux*/\n"
    if r15 or r16: s+="[C15,C16]    requires\n"
    for x in r16: s+=f"[C16]        {x},\n"
    for x in r15: s+=f"[C15]        {x}, /*aux*/\n"
    s+="    ensures\n[C13]        r is Ok ==> same(*final(self), *old(self)),\n[C14,C15,C16]        r is Ok ==> same(*final(self), *old(self)), /*aux*/\n"
    if clean: s+=f"[C15]        r is Ok ==> clean({tree}, {cfg}, is_list(old(self).env)),\n"
    for x in ens: s+=x+"\n"
    if tx and rec:
        c=f" && kind_of({tree}) == {kind} && !old(self).skip_next_space" if kind else ""
        t=f"txt({tree}, st(*old(self)), {cfg})"
        for c in ([c] if c else [f" && {tree} is Tok", f" && {tree} is Node"]): s+=f"[C14]        r is Ok && plain({tree}, {cfg}){c} ==> final(f)@ =~= old(f)@ + {t}.0 && to(*final(self)) == {t}.1,\n"
    if rec: s+=f"[C16]    decreases height({tree}), {rank}nat,\n"
    st="broadcast use {ax_node, ax_tok, els_skip, kid_height};\n[C13,C15,C16] broadcast use kid_wf;\n[C15] broadcast use clean_mono;\n"
    if name=="convert_command_color": st="broadcast use {ax_node, ax_tok, els_skip};\n"
    pass
    if "@start\n" in body: body=body.replace("@start\n","@start\n"+st)
    else: body="@start\n"+st+body
    if hide or tx and rec: body=body.replace("@start\n","@start\n[C14] hide(txt);\n[C14] hide(fold);\n[C14] hide(attach);\n[C14] hide(tab);\n"+("" if name=="convert_command_color" else "[C14] hide(walk);\n")+"".join(f"[C14] hide({x});\n" for x in more)).replace(st,st+(f"[C14] proof {{ txt_{KL[kind]}({tree}, st(*old(self)), {cfg}); }}\n" if kind else "") if tx else st)
    if kind: body=body.replace(f"plain({tree}, {cfg}) ==>", f"plain({tree}, {cfg}) && kind_of({tree}) == {kind} ==>")
    return s+body
KL=dict(ItemFormula="formula",ItemCurly="curly",ClauseLR="lr",ItemAttachComponent="attach",TokenCommandSym="sym",ItemCmd="cmd",ItemEnv="env")
def lp(k, it="vx_it", ch="kids(elem.el())", cl="done({ch}, els({it}.rest()).len(), spec, is_list(old(self).env))", extra="", ens=True, below=True, pre="", brk=None, frame=True, walkp="", guard="", tx="", E="elem.el()"):
    cl=cl.format(ch=ch,it=it) if cl else None
    s=""
    if frame:
        s+=f"@beforeloop {k}\nlet ghost vx_c{k} = *self;\n"
        if tx:
            s+=f"[C14] let ghost vx_f{k} = f@;\n"
            how="" if tx in ("attach","tab") else f"How::{tx}, "; fo=tx if tx in ("attach","tab") else "fold"
            s+=f"[C14] proof {{ walk_init({ch}); walk_step({ch}, {ch}); }}\n"
            s+=f"[C14] proof {{ {fo}_zero({how}{ch}, height({E}), st(*self), spec); }}\n"
    elif not pre: s+=f"[C14] @beforeloop {k}\n[C14] proof {{ walk_init({ch}); }}\n"
    s+=pre
    if ch=="kids(elem.el())": step=f"[C15,C16]     kid_step(elem.el(), els({it}.rest()), spec);\n"
    else: step=f"{walkp}     assert(({ch})[({ch}).len() - {it}.rest().len()] == els({it}.rest())[0]);\n"
    s+=f"@loopstart {k}\n[C14] proof {{ walk_step({ch}, els({it}.rest())); }}\nproof {{ if {it}.rest().len() > 0 {{\n    assert(els({it}.rest())[0] == {it}.rest()[0].el());\n{step}[C14]     assert({guard}({ch})[({ch}).len() - {it}.rest().len()] == els({it}.rest())[0]);\n"
    if tx:
        s+=f"[C14]     {fo}_next({how}{ch}, ({ch}).len() - {it}.rest().len(), height({E}), st(vx_c{k}), spec);\n"
    s+="} }\n"
    s+=f"@loop {k}\n    invariant\n        true,\n{walkp}        walk({ch}, els({it}.rest())),\n"
    if frame: s+=f"[C13]        same(*self, vx_c{k}),\n[C14,C15,C16]        same(*self, vx_c{k}), /*aux*/\n"
    if cl: s+=f"[C15]        {cl},\n"
    if tx:
        n=f"({ch}.len() - {it}.rest().len()) as nat"
        if tx in ("attach","tab"): t=f"{tx}({ch}, {n}, height({E}), st(vx_c{k}), spec)"
        else: t=f"fold(How::{tx}, {ch}, {n}, height({E}), st(vx_c{k}), spec)"
        s+=f"[C14]        plain({E}, spec) ==> f@ =~= vx_f{k} + {t}.0 && to(*self) == {t}.1,\n"
        if tx=="tab": s+=f"[C14]        plain({E}, spec) ==> exterior == {t}.2,\n"
        if tx=="attach": s+=f"[C14]        plain({E}, spec) ==> first == !{t}.2 && based == {t}.3,\n"
    s+=extra
    s+=f"    decreases {it}.rest().len(),\n"
    return s
o=[]
o.append(r"""@@ text
pub open spec fn done(ch: Seq<Elem>, left: nat, cfg: &CommandSpec, list: bool) -> bool {
    forall|i: int| 0 <= i < ch.len() - left ==> clean(#[trigger] ch[i], cfg, list)
}
pub open spec fn env_done(ch: Seq<Elem>, left: nat, cfg: &CommandSpec, list: bool, f: ContextFeature) -> bool {
    forall|i: int| 0 <= i < ch.len() - left && !begin_end(ch[i]) && !(f == ContextFeature::IsFigure && fig_cmd(ch[i])) && !(f == ContextFeature::IsTable && table_cmd(ch[i]))
        ==> clean(#[trigger] ch[i], cfg, list)
}
pub broadcast proof fn clean_mono(e: Elem, cfg: &CommandSpec, list: bool)
    requires clean(e, cfg, false),
    ensures #[trigger] clean(e, cfg, list),
    decreases e,
{
    if list {
        match e {
            Elem::Tok(..) => {}
            Elem::Node(k, ch) => {
                assert forall|i: int| 0 <= i < ch.len() && clean(#[trigger] ch[i], cfg, false) implies clean(ch[i], cfg, list) by {
                    clean_mono(ch[i], cfg, list);
                }
                assert forall|i: int| 0 <= i < ch.len() && clean_color(#[trigger] ch[i], cfg, false) implies clean_color(ch[i], cfg, list) by {
                    clean_mono_color(ch[i], cfg, list);
                }
                if ch.len() > 0 && clean_begin(ch[0], cfg, false) { clean_mono_begin(ch[0], cfg, list); }
            }
        }
    }
}
pub proof fn clean_mono_color(e: Elem, cfg: &CommandSpec, list: bool)
    requires clean_color(e, cfg, false),
    ensures clean_color(e, cfg, list),
    decreases e,
{
    match e {
        Elem::Tok(..) => {}
        Elem::Node(k, ch) => {
            assert forall|i: int| 0 <= i < ch.len() && clean(#[trigger] ch[i], cfg, false) implies clean(ch[i], cfg, list) by {
                clean_mono(ch[i], cfg, list);
            }
        }
    }
}
pub proof fn clean_mono_begin(e: Elem, cfg: &CommandSpec, list: bool)
    requires clean_begin(e, cfg, false),
    ensures clean_begin(e, cfg, list),
    decreases e,
{
    match e {
        Elem::Tok(..) => {}
        Elem::Node(k, ch) => {
            assert forall|i: int| 0 <= i < ch.len() && clean(#[trigger] ch[i], cfg, false) implies clean(ch[i], cfg, list) by {
                clean_mono(ch[i], cfg, list);
            }
        }
    }
}
pub broadcast proof fn els_skip<T: HasEl>(s: Seq<T>, n: int)
    requires 0 <= n <= s.len(),
    ensures #[trigger] els(s.skip(n)) == els(s).skip(n),
{
    assert(els(s.skip(n)) =~= els(s).skip(n));
}
pub broadcast proof fn els_idx<T: HasEl>(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures #![trigger els(s), s[i]] els(s)[i] == s[i].el(),
{
}
/// well formed and lower than h
pub open spec fn low(e: Elem, h: nat, cfg: &CommandSpec) -> bool { height(e) < h && wf(e, cfg) }
pub open spec fn lows(s: Seq<Elem>, h: nat, cfg: &CommandSpec) -> bool {
    forall|i: int| 0 <= i < s.len() ==> low(#[trigger] s[i], h, cfg)
}
pub broadcast proof fn low_kids(e: Elem, h: nat, cfg: &CommandSpec)
    requires low(e, h, cfg), !is_raw(kind_of(e)), kind_of(e) != ItemBegin,
    ensures #![trigger low(e, h, cfg), kids(e)] lows(kids(e), h, cfg),
{
    assert forall|i: int| 0 <= i < kids(e).len() implies low(#[trigger] kids(e)[i], h, cfg) by {
        kid_height(e, i);
        kid_wf(e, cfg, i);
    }
}
pub proof fn low_args(e: Elem, cfg: &CommandSpec)
    requires wf(e, cfg), !is_raw(kind_of(e)), kind_of(e) != ItemBegin,
    ensures lows(args_of(kids(e)), height(e), cfg), lows(kids(e), height(e), cfg),
        forall|i: int| 0 <= i < args_of(kids(e)).len() ==> kind_of(#[trigger] args_of(kids(e))[i]) == ClauseArgument,
{
    args_in(kids(e));
    below(e, args_of(kids(e)), cfg);
    assert forall|i: int| 0 <= i < kids(e).len() implies low(#[trigger] kids(e)[i], height(e), cfg) by {
        kid_height(e, i);
        kid_wf(e, cfg, i);
    }
}
pub broadcast proof fn low_cmd_args(c: Elem, cfg: &CommandSpec)
    requires wf(c, cfg), kind_of(c) == ItemCmd,
    ensures #![trigger wf(c, cfg), args_of(kids(c))] lows(args_of(kids(c)), height(c), cfg),
{
    low_args(c, cfg);
}
pub broadcast proof fn arg_clean(e: Elem, n: nat, cfg: &CommandSpec, list: bool)
    requires e is Node, kind_of(e) == ClauseArgument, n == 0, done(kids(e), n, cfg, list),
    ensures #![trigger done(kids(e), n, cfg, list)] clean(e, cfg, list),
{
}
pub proof fn cmd_clean(e: Elem, cfg: &CommandSpec, list: bool)
    requires
        e is Node, kind_of(e) == ItemCmd, !special(vx_cname(kids(e))), cfg.cmds().dom().contains(vx_cname(kids(e))),
        done(pick(kids(e), ClauseCommandName, false), 0, cfg, list),
    ensures clean(e, cfg, list),
{
    let ch = kids(e);
    let p = pick(ch, ClauseCommandName, false);
    pick_in(ch, ClauseCommandName, false);
    assert forall|i: int| 0 <= i < ch.len() && kind_of(ch[i]) == ClauseArgument implies clean(#[trigger] ch[i], cfg, list) by {
        assert(p.contains(ch[i]));
        let j = choose|j: int| 0 <= j < p.len() && p[j] == ch[i];
        assert(clean(p[j], cfg, list));
    }
}
pub proof fn env_clean(e: Elem, cfg: &CommandSpec, list: bool)
    requires
        e is Node, kind_of(e) == ItemEnv, kids(e).len() > 0,
    ensures
        forall|f: ContextFeature, n: nat, l: bool| n == 0 && l == (list || list_feature(f)) && cfg.envs().dom().contains(env_name(kids(e))) && f == cfg.envs()[env_name(kids(e))].ctx_feature
            && #[trigger] env_done(kids(e), n, cfg, l, f)
            && (math_feature(f) ==> done(args_of(kids(kids(e)[0])), 0, cfg, list))
            ==> clean(e, cfg, list),
{
    assert forall|f: ContextFeature, n: nat, l: bool| n == 0 && l == (list || list_feature(f)) && cfg.envs().dom().contains(env_name(kids(e))) && f == cfg.envs()[env_name(kids(e))].ctx_feature
            && #[trigger] env_done(kids(e), n, cfg, l, f)
            && (math_feature(f) ==> done(args_of(kids(kids(e)[0])), 0, cfg, list))
            implies clean(e, cfg, list) by {
        if math_feature(f) { begin_clean(kids(e)[0], cfg, list); }
    }
}
pub proof fn begin_clean(b: Elem, cfg: &CommandSpec, list: bool)
    requires done(args_of(kids(b)), 0, cfg, list),
    ensures clean_begin(b, cfg, list),
{
    args_in(kids(b));
    let ch = kids(b);
    assert forall|i: int| 0 <= i < ch.len() && kind_of(ch[i]) == ClauseArgument && ch[i] is Node implies clean(#[trigger] ch[i], cfg, list) by {
        assert(args_of(ch).contains(ch[i]));
        let j = choose|j: int| 0 <= j < args_of(ch).len() && args_of(ch)[j] == ch[i];
        assert(clean(args_of(ch)[j], cfg, list));
    }
}
pub proof fn rule_lits()
    ensures
        forall|t: Seq<char>| #![trigger bs(t), t.skip(1)] bs(t) && t.skip(1) == "hline"@ ==> t == "\\hline"@,
        forall|t: Seq<char>| #![trigger bs(t), t.skip(1)] bs(t) && t.skip(1) == "toprule"@ ==> t == "\\toprule"@,
        forall|t: Seq<char>| #![trigger bs(t), t.skip(1)] bs(t) && t.skip(1) == "midrule"@ ==> t == "\\midrule"@,
        forall|t: Seq<char>| #![trigger bs(t), t.skip(1)] bs(t) && t.skip(1) == "bottomrule"@ ==> t == "\\bottomrule"@,
{
    reveal_strlit("hline"); reveal_strlit("toprule"); reveal_strlit("midrule"); reveal_strlit("bottomrule");
    reveal_strlit("\\hline"); reveal_strlit("\\toprule"); reveal_strlit("\\midrule"); reveal_strlit("\\bottomrule");
    assert forall|t: Seq<char>, b: Seq<char>| bs(t) && bs(b) && #[trigger] t.skip(1) =~= #[trigger] b.skip(1) implies t == b by {
        assert(t =~= seq![t[0]] + t.skip(1));
        assert(b =~= seq![b[0]] + b.skip(1));
    }
    assert("\\hline"@.skip(1) =~= "hline"@);
    assert("\\toprule"@.skip(1) =~= "toprule"@);
    assert("\\midrule"@.skip(1) =~= "midrule"@);
    assert("\\bottomrule"@.skip(1) =~= "bottomrule"@);
}
pub open spec fn is_color(n: Seq<char>) -> bool { n == "color"@ || n == "textcolor"@ || n == "colorbox"@ }
/// ch[..p] is what stands before the colour
pub open spec fn color_parts(ch: Seq<Elem>, p: int) -> bool {
    &&& 0 <= p <= ch.len()
    &&& 0 <= color_from(ch) <= p
    &&& forall|i: int| color_from(ch) <= i < p ==> trivia_kind(kind_of(#[trigger] ch[i]))
}
pub proof fn color_lits()
    ensures
        forall|t: Seq<char>| #![trigger bs(t)] bs(t) && t == "\\color"@ ==> t.skip(1) == "color"@,
        forall|t: Seq<char>| #![trigger bs(t)] bs(t) && t.skip(1) == "color"@ ==> t == "\\color"@,
{
    reveal_strlit("color"); reveal_strlit("\\color");
    assert("\\color"@.skip(1) =~= "color"@);
    assert forall|t: Seq<char>| #![trigger bs(t)] bs(t) && t.skip(1) == "color"@ implies t == "\\color"@ by {
        assert(t =~= seq![t[0]] + t.skip(1));
        assert("\\color"@ =~= seq!['\\'] + "\\color"@.skip(1));
    }
}
pub proof fn color_clean(e: Elem, p: int, cfg: &CommandSpec, list: bool)
    requires
        e is Node, kind_of(e) == ItemCmd, vx_cname(kids(e)) == "color"@, wf(e, cfg), args_of(kids(e)).len() > 0,
        color_parts(kids(args_of(kids(e))[0]), p),
        forall|i: int| p <= i < kids(args_of(kids(e))[0]).len() ==> clean(#[trigger] kids(args_of(kids(e))[0])[i], cfg, list),
    ensures clean(e, cfg, list),
{
    lits();
    low_args(e, cfg);
    let a = args_of(kids(e))[0];
    assert(low(a, height(e), cfg));
    low_kids(a, height(e), cfg);
    assert forall|i: int| color_from(kids(a)) <= i < kids(a).len() implies clean(#[trigger] kids(a)[i], cfg, list) by {
        assert(low(kids(a)[i], height(e), cfg));
    }
    assert(clean_color(a, cfg, list));
}
pub proof fn text_clean(e: Elem, cfg: &CommandSpec, list: bool)
    requires
        e is Node, kind_of(e) == ItemCmd, vx_cname(kids(e)) == "textcolor"@ || vx_cname(kids(e)) == "colorbox"@,
        forall|i: int| 0 <= i < args_of(kids(e)).len() && !(i == 0 && is_model(args_of(kids(e))[0])) ==> clean(#[trigger] args_of(kids(e))[i], cfg, list),
    ensures clean(e, cfg, list),
{
    lits();
    let ch = kids(e);
    args_in(ch);
    assert forall|j: int| 0 <= j < ch.len() && ch[j] is Node && kind_of(ch[j]) == ClauseArgument && !(ch[j] == args_of(ch)[0] && is_model(ch[j])) implies clean(#[trigger] ch[j], cfg, list) by {
        assert(args_of(ch).contains(ch[j]));
        let i = choose|i: int| 0 <= i < args_of(ch).len() && args_of(ch)[i] == ch[j];
        assert(clean(args_of(ch)[i], cfg, list));
    }
}
pub open spec fn vx_streq_spec(a: Seq<char>, b: Seq<char>) -> bool { a == b }
pub open spec fn color_args_at(ch: Seq<Elem>, c: Option<Elem>, b: Seq<Elem>, p: int) -> bool {
    &&& color_parts(ch, p)
    &&& c is Some ==> p < ch.len() && ch[p] == c->0 && b =~= ch.skip(p + 1)
    &&& c is None ==> p == ch.len() && b.len() == 0
}
/// c and b are the colour and the body of the command
#[verifier::opaque]
pub open spec fn color_args(e: Elem, c: Option<Elem>, b: Seq<Elem>) -> bool {
    let a = args_of(kids(e));
    if vx_cname(kids(e)) == "color"@ {
        a.len() > 0 && exists|p: int| color_args_at(kids(a[0]), c, b, p)
    } else {
        let k = if a.len() > 0 && is_model(a[0]) { 1int } else { 0int };
        k < a.len() ==> c is Some && a[k] == c->0 && b =~= a.skip(k + 1)
    }
}
pub proof fn color_end(e: Elem, c: Option<Elem>, b: Seq<Elem>, cfg: &CommandSpec, list: bool)
    requires
        e is Node, kind_of(e) == ItemCmd, is_color(vx_cname(kids(e))), wf(e, cfg), color_args(e, c, b),
        c is Some ==> clean(c->0, cfg, list),
        done(b, 0, cfg, list),
    ensures clean(e, cfg, list),
{
    reveal(color_args);
    let a = args_of(kids(e));
    if vx_cname(kids(e)) == "color"@ {
        let p = choose|p: int| color_args_at(kids(a[0]), c, b, p);
        assert forall|i: int| p <= i < kids(a[0]).len() implies clean(#[trigger] kids(a[0])[i], cfg, list) by {
            if i > p { assert(kids(a[0])[i] == b[i - p - 1]); }
        }
        color_clean(e, p, cfg, list);
    } else {
        let k = if a.len() > 0 && is_model(a[0]) { 1int } else { 0int };
        assert forall|i: int| k <= i < a.len() implies clean(#[trigger] a[i], cfg, list) by {
            if i > k { assert(a[i] == b[i - k - 1]); }
        }
        text_clean(e, cfg, list);
    }
}
pub proof fn walk_init(ch: Seq<Elem>)
    ensures walk(ch, ch),
{
    assert(ch =~= ch.skip(0));
}
pub proof fn walk_step(ch: Seq<Elem>, r: Seq<Elem>)
    ensures walk(ch, r) ==> r.len() <= ch.len(), walk(ch, r) && r.len() > 0 ==> r[0] == ch[ch.len() - r.len()] && walk(ch, r.skip(1)),
{
    if walk(ch, r) && r.len() > 0 { assert(r.skip(1) =~= ch.skip(ch.len() - r.len() + 1)); }
}
// ---- what is written
/// what is carried from one construct to the next: the next blank is dropped; a label waits for the end of its environment
pub struct To { pub skip: bool, pub label: Option<Seq<char>> }
pub struct St { pub mode: LaTeXMode, pub env: LaTeXEnv, pub indent: nat, pub to: To }
pub open spec fn to(c: Converter) -> To { To { skip: c.skip_next_space, label: match c.label { Some(l) => Some(l@), None => None } } }
pub open spec fn st(c: Converter) -> St { St { mode: c.mode, env: c.env, indent: c.indent as nat, to: to(c) } }
pub open spec fn noskip(s: St) -> St { St { to: To { skip: false, ..s.to }, ..s } }
pub type Out = (Seq<char>, To);
pub broadcast proof fn cat_cat(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{
    assert((a + b) + c =~= a + (b + c));
}
pub broadcast proof fn push_cat(a: Seq<char>, c: char)
    ensures #[trigger] a.push(c) == a + seq![c],
{
    assert(a.push(c) =~= a + seq![c]);
}
pub proof fn env_text(o: Seq<char>, d: Seq<char>, n: Seq<char>, p: Seq<char>, r: Seq<char>, e: Seq<char>)
    ensures
        ((o + n).push('(') + p + r).push(')') == o + ((n.push('(') + p) + r).push(')'),
        ((o + d + n).push('(') + p + r).push(')') + e == o + (d + ((n.push('(') + p) + r).push(')') + e),
{
    broadcast use {cat_cat, push_cat};
}
pub open spec fn spaced(t: Seq<char>, n: nat) -> Seq<char>
    decreases n,
{
    if n == 0 { Seq::empty() } else { spaced(t, (n - 1) as nat).push(t[n - 1]).push(' ') }
}
pub open spec fn blanks(n: nat) -> Seq<char>
    decreases n,
{
    if n == 0 { Seq::empty() } else { blanks((n - 1) as nat).push(' ') }
}
pub open spec fn named_as(alias: Option<String>, name: Seq<char>) -> Seq<char> {
    match alias { Some(a) => a@, None => name }
}
/// the text of one token
pub open spec fn leaf(k: SyntaxKind, t: Seq<char>, s: St, cfg: &CommandSpec) -> Out {
    let math = s.mode == LaTeXMode::Math;
    let esc = match k {
        TokenWord => if math { spaced(t, t.len()) } else { t },
        TokenWhiteSpace => if s.to.skip { Seq::empty() } else { t },
        TokenLineBreak => t + blanks(s.indent),
        TokenApostrophe => seq!['\''],
        TokenComma => "\\,"@,
        TokenSlash => "\\/"@,
        TokenCaret => "\\^"@,
        TokenUnderscore => "\\_"@,
        TokenHash => "\\#"@,
        TokenAsterisk => "\\*"@,
        TokenAtSign => "\\@"@,
        TokenDitto => "\\\""@,
        TokenSemicolon => "\\;"@,
        TokenLParen => "\\("@,
        TokenRParen => "\\)"@,
        TokenLBracket => "\\["@,
        TokenRBracket => "\\]"@,
        TokenTilde => if math { "space.nobreak "@ } else { "\\~"@ },
        TokenAmpersand => if s.env == LaTeXEnv::Matrix { "zws ,"@ } else { "&"@ },
        ItemNewLine => match s.env {
            LaTeXEnv::Matrix => "zws ;"@,
            LaTeXEnv::Cases => ","@,
            LaTeXEnv::MathCurlyGroup => Seq::empty(),
            _ => "\\ "@,
        },
        TokenCommandSym => named_as(cfg.cmds()[t.skip(1)].alias, t.skip(1)),
        _ => Seq::empty(),
    };
    (esc, To { skip: k == TokenLineBreak, ..s.to })
}
pub open spec fn inline(ch: Seq<Elem>) -> bool {
    (kind_of(ch[0]) == TokenDollar && tok_text(ch[0]) == "$"@) || (kind_of(ch[0]) == TokenBeginMath && tok_text(ch[0]) == "\\("@)
}
pub open spec fn blank_kind(k: SyntaxKind) -> bool {
    k == TokenWhiteSpace || k == TokenLineBreak || k == TokenLBrace || k == TokenRBrace
}
/// how the texts of a sequence are put together
pub enum How { All, Lr, Greedy, Call, Body, Inside, Fig, Args, Dollar }
/// the text r of the elements before, with the text x of element number n of m
pub open spec fn put(how: How, r: Out, e: Elem, x: Out, n: nat, m: nat) -> Out {
    let k = kind_of(e);
    match how {
        How::All => (r.0 + x.0, x.1),
        How::Lr => if n == 1 { r } else if e is Tok && k == TokenWord && tok_text(e) == "."@ { (r.0.push(' '), r.1) } else { ((r.0 + x.0).push(' '), x.1) },
        How::Greedy => (if k == ItemCurly && n != m { (r.0 + x.0).push(',') } else { r.0 + x.0 }, x.1),
        How::Call => (if k == ClauseArgument && n != m { (r.0 + x.0).push(',') } else { r.0 + x.0 }, x.1),
        How::Body => if k == ClauseArgument { ((r.0.push('[') + x.0).push(']'), x.1) } else { r },
        How::Inside => if begin_end(e) { r } else { (r.0 + x.0, x.1) },
        How::Fig => if begin_end(e) || fig_cmd(e) { r } else { (r.0 + x.0, x.1) },
        How::Dollar => ((r.0.push('$') + x.0).push('$'), x.1),
        How::Args => ((r.0 + ("arg"@ + dec((n - 1) as nat) + ": "@) + x.0).push(','), x.1),
    }
}
pub open spec fn put_st(how: How, r: Out, s: St) -> St {
    St { to: r.1, mode: if how is Body { LaTeXMode::Text } else { s.mode }, ..s }
}
pub open spec fn fold(m: How, ch: Seq<Elem>, n: nat, h: nat, s: St, cfg: &CommandSpec) -> Out
    decreases h, 0nat, n,
{
    if n == 0 || n > ch.len() { (Seq::empty(), s.to) } else {
        let r = fold(m, ch, (n - 1) as nat, h, s, cfg);
        let e = ch[n - 1];
        if height(e) >= h { r } else { put(m, r, e, txt(e, put_st(m, r, s), cfg), n, ch.len()) }
    }
}
pub proof fn fold_zero(m: How, ch: Seq<Elem>, h: nat, s: St, cfg: &CommandSpec)
    ensures fold(m, ch, 0, h, s, cfg) == (Seq::<char>::empty(), s.to),
{
}
pub proof fn fold_next(m: How, ch: Seq<Elem>, n: int, h: nat, s: St, cfg: &CommandSpec)
    ensures
        0 <= n < ch.len() && height(ch[n]) < h ==> fold(m, ch, (n + 1) as nat, h, s, cfg)
            == put(m, fold(m, ch, n as nat, h, s, cfg), ch[n], txt(ch[n], put_st(m, fold(m, ch, n as nat, h, s, cfg), s), cfg), (n + 1) as nat, ch.len()),
{
}
/// scripts in math: (text, what is carried on, the script has begun, there is a base)
pub type Att = (Seq<char>, To, bool, bool);
pub open spec fn put_att(r: Att, e: Elem, x: Out) -> Att {
    let k = kind_of(e);
    if !r.2 && e is Tok && (k == TokenUnderscore || k == TokenCaret) {
        (r.0 + (if r.3 { Seq::empty() } else { "zws"@ }) + (tok_text(e) + "("@), r.1, true, r.3)
    } else {
        (r.0 + x.0, x.1, r.2, r.3 || (!r.2 && !(e is Tok && k == TokenWhiteSpace)))
    }
}
pub open spec fn attach(ch: Seq<Elem>, n: nat, h: nat, s: St, cfg: &CommandSpec) -> Att
    decreases h, 0nat, n,
{
    if n == 0 || n > ch.len() { (Seq::empty(), s.to, false, false) } else {
        let r = attach(ch, (n - 1) as nat, h, s, cfg);
        let e = ch[n - 1];
        if height(e) >= h { r } else { put_att(r, e, txt(e, St { to: r.1, ..s }, cfg)) }
    }
}
pub proof fn attach_zero(ch: Seq<Elem>, h: nat, s: St, cfg: &CommandSpec)
    ensures attach(ch, 0, h, s, cfg) == (Seq::<char>::empty(), s.to, false, false),
{
}
pub proof fn attach_next(ch: Seq<Elem>, n: int, h: nat, s: St, cfg: &CommandSpec)
    ensures
        0 <= n < ch.len() && height(ch[n]) < h ==> attach(ch, (n + 1) as nat, h, s, cfg)
            == put_att(attach(ch, n as nat, h, s, cfg), ch[n], txt(ch[n], St { to: attach(ch, n as nat, h, s, cfg).1, ..s }, cfg)),
{
}
/// rows of a table: (text, what is carried on, outside of a cell)
pub type Tab = (Seq<char>, To, bool);
pub open spec fn rule(e: Elem) -> Option<Seq<char>> {
    let n = vx_cname(kids(e));
    if kind_of(e) != ItemCmd { None }
    else if n == "hline"@ { Some("table.hline(stroke: .5pt),\n"@) }
    else if n == "toprule"@ { Some("table.hline(stroke: 1pt),\n"@) }
    else if n == "midrule"@ { Some("table.hline(stroke: .5pt),\n"@) }
    else if n == "bottomrule"@ { Some("table.hline(stroke: 1pt),\n"@) }
    else { None }
}
/// the element ends a cell or a row, or stands between cells
pub open spec fn between(r: Tab, e: Elem) -> bool {
    let k = kind_of(e);
    begin_end(e) || k == TokenAmpersand || k == ItemNewLine || (r.2 && (k == TokenWhiteSpace || k == TokenLineBreak || rule(e) is Some))
}
pub open spec fn put_tab(r: Tab, e: Elem, x: Out) -> Tab {
    let k = kind_of(e);
    if begin_end(e) { r }
    else if k == TokenAmpersand { (r.0 + (if r.2 { "[], "@ } else { "], "@ }), r.1, true) }
    else if k == ItemNewLine { (r.0 + (if r.2 { "[],\n"@ } else { "],\n"@ }), r.1, true) }
    else if between(r, e) { (if rule(e) is Some { r.0 + rule(e)->0 } else { r.0 }, r.1, true) }
    else { ((if r.2 { r.0.push('[') } else { r.0 }) + x.0, x.1, false) }
}
pub open spec fn tab(ch: Seq<Elem>, n: nat, h: nat, s: St, cfg: &CommandSpec) -> Tab
    decreases h, 0nat, n,
{
    if n == 0 || n > ch.len() { (Seq::empty(), s.to, true) } else {
        let r = tab(ch, (n - 1) as nat, h, s, cfg);
        let e = ch[n - 1];
        if height(e) >= h { r } else { put_tab(r, e, txt(e, St { to: r.1, ..s }, cfg)) }
    }
}
pub proof fn tab_zero(ch: Seq<Elem>, h: nat, s: St, cfg: &CommandSpec)
    ensures tab(ch, 0, h, s, cfg) == (Seq::<char>::empty(), s.to, true),
{
}
pub proof fn tab_next(ch: Seq<Elem>, n: int, h: nat, s: St, cfg: &CommandSpec)
    ensures
        0 <= n < ch.len() && height(ch[n]) < h ==> tab(ch, (n + 1) as nat, h, s, cfg)
            == put_tab(tab(ch, n as nat, h, s, cfg), ch[n], txt(ch[n], St { to: tab(ch, n as nat, h, s, cfg).1, ..s }, cfg)),
{
}
/// the columns and the lines between them among the first n characters
pub open spec fn columns(t: Seq<char>, n: nat) -> Seq<char>
    decreases n,
{
    if n == 0 { Seq::empty() }
    else if t[n - 1] == 'l' || t[n - 1] == 'c' || t[n - 1] == 'r' { columns(t, (n - 1) as nat).push(t[n - 1]) }
    else { columns(t, (n - 1) as nat) }
}
pub open spec fn lines(t: Seq<char>, n: nat) -> Seq<nat>
    decreases n,
{
    if n == 0 { Seq::empty() }
    else if t[n - 1] == '|' { lines(t, (n - 1) as nat).push(columns(t, (n - 1) as nat).len()) }
    else { lines(t, (n - 1) as nat) }
}
pub open spec fn aligned(a: Seq<char>, n: nat) -> Seq<char>
    decreases n,
{
    if n == 0 { Seq::empty() }
    else { aligned(a, (n - 1) as nat) + (if a[n - 1] == 'l' { "left, "@ } else if a[n - 1] == 'c' { "center, "@ } else if a[n - 1] == 'r' { "right, "@ } else { Seq::empty() }) }
}
pub open spec fn lined(a: Seq<nat>, n: nat) -> Seq<char>
    decreases n,
{
    if n == 0 { Seq::empty() }
    else { lined(a, (n - 1) as nat) + ("table.vline(stroke: .5pt, x: "@ + dec(a[n - 1]) + "), "@) }
}
/// #name(columns and lines rows);
pub open spec fn w_tab(n: Seq<char>, t: Seq<char>, r: Tab) -> Out {
    let a = columns(t, t.len());
    let v = lines(t, t.len());
    (seq!['#'] + n + seq!['('] + "stroke: none,\n"@ + ("columns: "@ + dec(a.len()) + ",\n"@) + "align: ("@ + aligned(a, a.len()) + "),\n"@ + lined(v, v.len()) + "\n"@
        + r.0 + (if r.2 { Seq::empty() } else { "],\n"@ }) + ");"@, r.1)
}
pub open spec fn nats(v: Seq<usize>) -> Seq<nat> { Seq::new(v.len(), |i: int| v[i] as nat) }
pub open spec fn s_tab(s: St) -> St { St { env: LaTeXEnv::Table, ..s } }
pub proof fn cmd_text(o: Seq<char>, n: Seq<char>, r: Out)
    ensures
        o + n.push(' ') == (o + n).push(' '),
        o + w_call(n, r).0 == ((o + n).push('(') + r.0).push(')'), w_call(n, r).1 == r.1,
        o + w_body(n, r).0 == ((o + n) + r.0).push(';'), w_body(n, r).1 == r.1,
{
    broadcast use {cat_cat, push_cat};
}
pub open spec fn typst_name(ch: Seq<Elem>, s: St, cfg: &CommandSpec) -> Seq<char> {
    let n = vx_cname(ch);
    if s.mode == LaTeXMode::Text && n == "textbf"@ { "#strong"@ }
    else if s.mode == LaTeXMode::Text && n == "textit"@ { "#emph"@ }
    else { named_as(cfg.cmds()[n].alias, n) }
}
pub open spec fn env_of(f: ContextFeature) -> LaTeXEnv {
    match f {
        ContextFeature::IsMath => LaTeXEnv::Math,
        ContextFeature::IsMatrix => LaTeXEnv::Matrix,
        ContextFeature::IsCases => LaTeXEnv::Cases,
        ContextFeature::IsItemize => LaTeXEnv::Itemize,
        ContextFeature::IsEnumerate => LaTeXEnv::Enumerate,
        ContextFeature::IsFigure => LaTeXEnv::Figure,
        ContextFeature::IsTable => LaTeXEnv::Table,
        ContextFeature::None => LaTeXEnv::None,
    }
}
/// the mark of a list item, indented as the list is
pub open spec fn item_text(s: St) -> Seq<char> {
    seq!['\n'] + blanks((s.indent - 2) as nat) + (if s.env == LaTeXEnv::Itemize { "- "@ } else { "+ "@ })
}
// the text of a construct from the texts of its parts
pub open spec fn w_formula(ch: Seq<Elem>, s: St, r: Out) -> Out {
    if s.mode == LaTeXMode::Math { r }
    else if inline(ch) { ("#math.equation(block: false, $"@ + r.0 + "$);"@, r.1) }
    else { ("$ "@ + r.0 + " $"@, r.1) }
}
pub open spec fn s_curly(s: St) -> St {
    St { env: if s.mode == LaTeXMode::Math && s.env != LaTeXEnv::SubStack { LaTeXEnv::MathCurlyGroup } else { s.env }, ..s }
}
pub open spec fn w_curly(ch: Seq<Elem>, s: St, r: Out) -> Out {
    if s.mode == LaTeXMode::Math && forall|i: int| 0 <= i < ch.len() ==> blank_kind(kind_of(#[trigger] ch[i])) { (r.0 + "zws "@, r.1) } else { r }
}
pub open spec fn w_lr(ch: Seq<Elem>, r: Out) -> Out {
    let n = tok_text(ch[0]).skip(1);
    let a = if n == "left"@ { "lr("@ } else { Seq::empty() };
    (if n == "right"@ { (a + r.0).push(')') } else { a + r.0 }, r.1)
}
pub open spec fn w_attach(r: Att) -> Out {
    (if r.2 { r.0.push(')') } else { r.0 }, r.1)
}
pub open spec fn s_cmd(n: Seq<char>, s: St) -> St {
    if n == "substack"@ { St { env: LaTeXEnv::SubStack, ..s } } else { s }
}
pub open spec fn w_call(n: Seq<char>, r: Out) -> Out { ((n.push('(') + r.0).push(')'), r.1) }
pub open spec fn w_body(n: Seq<char>, r: Out) -> Out { ((n + r.0).push(';'), r.1) }
/// an environment of math: name(arguments body), as a formula of its own in text
pub open spec fn s_math(d: EnvShape, s: St) -> St { nolabel(St { mode: LaTeXMode::Math, env: env_of(d.ctx_feature), ..s }) }
pub open spec fn w_math(n: Seq<char>, s: St, p: Out, r: Out) -> Out {
    let t = ((n.push('(') + p.0) + r.0).push(')');
    (if s.mode == LaTeXMode::Math { t } else { "$ "@ + t + " $"@ }, r.1)
}
/// a list: its items, indented
pub open spec fn s_list(d: EnvShape, s: St) -> St { St { env: env_of(d.ctx_feature), indent: s.indent + 2, ..s } }
/// any other environment: #name[body];
pub open spec fn w_env(n: Seq<char>, r: Out) -> Out { (seq!['#'] + n + seq!['['] + r.0 + "];"@, r.1) }
/// the text of the last caption among the first n elements
pub open spec fn cap_of(ch: Seq<Elem>, n: nat) -> Seq<Elem>
    decreases n,
{
    if n == 0 { Seq::empty() }
    else if named(ch[n - 1], "\\caption"@) { args_of(kids(ch[n - 1])).take(if args_of(kids(ch[n - 1])).len() > 0 { 1 } else { 0 }) }
    else { cap_of(ch, (n - 1) as nat) }
}
/// #name(caption: [caption],)[body];
pub open spec fn w_fig(n: Seq<char>, c: Seq<Elem>, p: Out, r: Out) -> Out {
    (seq!['#'] + n + seq!['('] + (if c.len() > 0 { "caption: ["@ + p.0 + "],"@ } else { Seq::empty() }) + ")["@ + r.0 + "];"@, r.1)
}
pub open spec fn s_fig(s: St) -> St { St { env: LaTeXEnv::Figure, ..s } }
/// the name that a label gives: its argument without the braces
pub open spec fn label_of(a: Elem) -> Seq<char> { inside(node_text(a), '{', '}') }
pub open spec fn inside(t: Seq<char>, a: char, z: char) -> Seq<char> { trim(unclosed(unopened(t, a), z)) }
pub open spec fn unopened(t: Seq<char>, c: char) -> Seq<char> { if starts(t, c) { t.skip(1) } else { t } }
pub open spec fn unclosed(t: Seq<char>, c: char) -> Seq<char> { if ends(t, c) { t.drop_last() } else { t } }
/// the first argument from number n on that is a node of kind k
pub open spec fn arg_in(a: Seq<Elem>, n: int, k: SyntaxKind) -> Option<Elem>
    decreases a.len() - n,
{
    if n < 0 || n >= a.len() { None }
    else if nodes(kids(a[n])).len() > 0 && kind_of(nodes(kids(a[n]))[0]) == k { Some(a[n]) }
    else { arg_in(a, n + 1, k) }
}
/// an option of an image: the width or the height, of the text or absolute
pub open spec fn w_option(t: Seq<char>) -> Seq<char> {
    let p = split(trim(t), '=');
    let key = trim(p[0]);
    let v = if p.len() == 2 { trim(p[1]) } else { ""@ };
    if key == "width"@ || key == "height"@ {
        key + seq![':', ' '] + (if has_end(v, "\\textwidth"@) { without_end(v, "\\textwidth"@) + " * 100%"@ }
            else if has_end(v, "\\textheight"@) { without_end(v, "\\textheight"@) + " * 100%"@ }
            else { v }) + seq![',', ' ']
    } else { Seq::empty() }
}
pub open spec fn option_is(x: (&str, &str), t: Seq<char>) -> bool {
    let p = split(trim(t), '=');
    x.0@ == trim(p[0]) && x.1@ == if p.len() == 2 { trim(p[1]) } else { ""@ }
}
pub open spec fn w_options(o: Seq<Seq<char>>, n: nat) -> Seq<char>
    decreases n,
{
    if n == 0 { Seq::empty() } else { w_options(o, (n - 1) as nat) + w_option(o[n - 1]) }
}
pub open spec fn options(a: Seq<Elem>) -> Seq<Seq<char>> { split(inside(node_text(arg_in(a, 0, ItemBracket)->0), '[', ']'), ',') }
pub open spec fn w_image(a: Seq<Elem>) -> Seq<char> {
    "#image("@ + (if arg_in(a, 0, ItemBracket) is Some { w_options(options(a), options(a).len()) } else { Seq::empty() })
        + seq!['"'] + label_of(arg_in(a, 0, ItemCurly)->0) + seq!['"', ')']
}
/// where the colour stands in the argument of \color
pub open spec fn colour_at(ch: Seq<Elem>) -> int { skip_trivia(ch, color_from(ch)) }
pub open spec fn elem_text(e: Elem) -> Seq<char> { if e is Tok { tok_text(e) } else { node_text(e) } }
/// the text up to the closing bracket
pub open spec fn model_text(ch: Seq<Elem>, n: int) -> Seq<char>
    decreases ch.len() - n,
{
    if n < 0 || n >= ch.len() || kind_of(ch[n]) == TokenRBracket { Seq::empty() } else { elem_text(ch[n]) + model_text(ch, n + 1) }
}
/// the colour and what it applies to
pub open spec fn colour_parts(ch: Seq<Elem>) -> Seq<Elem> {
    let a = args_of(ch);
    if vx_cname(ch) == "color"@ {
        if a.len() > 0 && 0 <= colour_at(kids(a[0])) <= kids(a[0]).len() { kids(a[0]).skip(colour_at(kids(a[0]))) } else { Seq::empty() }
    } else { a.skip(if a.len() > 0 && is_model(a[0]) { 1 } else { 0 }) }
}
/// the model of the colour: what stands in brackets before it
pub open spec fn colour_model(ch: Seq<Elem>) -> Seq<char> {
    let a = args_of(ch);
    if vx_cname(ch) == "color"@ {
        let k = kids(a[0]);
        let i = skip_trivia(k, 0);
        if i < k.len() && kind_of(k[i]) == TokenLBracket { "["@ + model_text(k, i + 1) + "], "@ } else { "none, "@ }
    } else if a.len() > 0 && is_model(a[0]) { "["@ + node_text(a[0]).subrange(1, node_text(a[0]).len() - 1) + "], "@ } else { "none, "@ }
}
pub open spec fn colour_name(n: Seq<char>, cfg: &CommandSpec) -> Seq<char> {
    if cfg.cmds().dom().contains(n) { named_as(cfg.cmds()[n].alias, "mitexcolor"@) } else { "mitexcolor"@ }
}
pub open spec fn front(q: Seq<Elem>) -> Seq<Elem> { if q.len() > 0 { seq![q[0]] } else { q } }
pub open spec fn behind(q: Seq<Elem>) -> Seq<Elem> { if q.len() > 0 { q.skip(1) } else { q } }
pub open spec fn colour_how(s: St) -> How { if s.mode == LaTeXMode::Math { How::Dollar } else { How::All } }
/// p: the colour, r: what it applies to
pub open spec fn w_colour(ch: Seq<Elem>, s: St, cfg: &CommandSpec, p: Out, r: Out) -> Out {
    (w_coloured(colour_name(vx_cname(ch), cfg), colour_model(ch), if colour_parts(ch).len() > 0 { p.0 } else { "black"@ }, r.0, s.mode == LaTeXMode::Text), r.1)
}
pub open spec fn w_coloured(n: Seq<char>, m: Seq<char>, p: Seq<char>, r: Seq<char>, semi: bool) -> Seq<char> {
    n + "("@ + m + seq!['['] + p + "]"@ + seq![')'] + seq!['['] + r + (if semi { seq![']', ';'] } else { seq![']'] })
}
pub open spec fn mark(l: Seq<char>) -> Seq<char> { (seq!['<'] + l).push('>') }
/// a label outside of figures, tables and formulas stands where it is; any other waits for the end of its environment
pub open spec fn w_label(l: Seq<char>, s: St) -> Out {
    if s.env == LaTeXEnv::None || is_list(s.env) { (if s.mode == LaTeXMode::Text { mark(l) } else { Seq::empty() }, s.to) }
    else { (Seq::empty(), To { label: Some(l), ..s.to }) }
}
/// a label set before an environment is not its own
pub open spec fn nolabel(s: St) -> St { St { to: To { label: None, ..s.to }, ..s } }
/// a label set inside an environment is written at its end, in text
pub open spec fn end_env(s: St, r: Out) -> Out {
    if s.mode == LaTeXMode::Text && r.1.label is Some { (r.0 + mark(r.1.label->0), To { label: s.to.label, ..r.1 }) }
    else if r.1.label is None { (r.0, To { label: s.to.label, ..r.1 }) }
    else { r }
}
pub open spec fn txt(e: Elem, s0: St, cfg: &CommandSpec) -> Out
    decreases height(e), 1nat, 0nat,
{
    let s = if kind_of(e) == TokenWhiteSpace { s0 } else { noskip(s0) };
    let h = height(e);
    match e {
        Elem::Tok(k, t) => leaf(k, t, s, cfg),
        Elem::Node(k, ch) => match k {
            ItemBlockComment => (Seq::empty(), s.to),
            ItemTypstCode => (node_text(e), s.to),
            ItemFormula => w_formula(ch, s, fold(How::All, ch, ch.len(), h, St { mode: LaTeXMode::Math, ..s }, cfg)),
            ItemCurly => w_curly(ch, s, fold(How::All, ch, ch.len(), h, s_curly(s), cfg)),
            ClauseLR => w_lr(ch, fold(How::Lr, ch, ch.len(), h, s, cfg)),
            ItemAttachComponent => if s.mode == LaTeXMode::Math { w_attach(attach(ch, ch.len(), h, s, cfg)) } else { fold(How::All, ch, ch.len(), h, s, cfg) },
            ItemCmd => {
                let a = pick(ch, ClauseCommandName, false);
                let n = typst_name(ch, s, cfg);
                if vx_cname(ch) == "item"@ { (item_text(s), s.to) } else if vx_cname(ch) == "label"@ { w_label(label_of(args_of(ch)[0]), s) } else if vx_cname(ch) == "includegraphics"@ { (w_image(args_of(ch)), s.to) } else if is_color(vx_cname(ch)) {
                    let q = colour_parts(ch);
                    let p = fold(How::All, front(q), front(q).len(), h, St { mode: LaTeXMode::Text, ..s }, cfg);
                    w_colour(ch, s, cfg, p, fold(colour_how(s), behind(q), behind(q).len(), h, St { to: p.1, ..s }, cfg))
                } else {
                    match cfg.cmds()[vx_cname(ch)].args {
                        ArgShape::Right { pattern: ArgPattern::None } => (n.push(' '), s.to),
                        ArgShape::Right { pattern: ArgPattern::Greedy } => w_call(n, fold(How::Greedy, kids(a[0]), kids(a[0]).len(), h, s_cmd(n, s), cfg)),
                        _ => if s.mode == LaTeXMode::Math && !starts(n, '#') { w_call(n, fold(How::Call, a, a.len(), h, s_cmd(n, s), cfg)) }
                            else { w_body(n, fold(How::Body, a, a.len(), h, s_cmd(n, s), cfg)) },
                    }
                }
            },
            ItemEnv => {
                let n = env_name(ch);
                let d = cfg.envs()[n];
                let a = args_of(kids(ch[0]));
                if list_feature(d.ctx_feature) { fold(How::Inside, ch, ch.len(), h, s_list(d, s), cfg) }
                else if math_feature(d.ctx_feature) {
                    let p = fold(How::Args, a, a.len(), h, s_math(d, s), cfg);
                    end_env(s, w_math(named_as(d.alias, n), s, p, fold(How::Inside, ch, ch.len(), h, St { to: p.1, ..s_math(d, s) }, cfg)))
                }
                else if d.ctx_feature == ContextFeature::IsFigure {
                    let c = cap_of(ch, ch.len());
                    let t = s_fig(nolabel(s));
                    let p = fold(How::All, c, c.len(), h, t, cfg);
                    end_env(s, w_fig(named_as(d.alias, n), c, p, fold(How::Fig, ch, ch.len(), h, St { to: p.1, ..t }, cfg)))
                }
                else if d.ctx_feature == ContextFeature::IsTable {
                    end_env(s, w_tab(named_as(d.alias, n), label_of(args_of(kids(ch[0]))[0]), tab(ch, ch.len(), h, s_tab(nolabel(s)), cfg)))
                }
                else { end_env(s, w_env(named_as(d.alias, n), fold(How::Inside, ch, ch.len(), h, nolabel(St { env: LaTeXEnv::None, ..s }), cfg))) }
            },
            _ => fold(How::All, ch, ch.len(), h, s, cfg),
        },
    }
}
pub proof fn txt_formula(e: Elem, s: St, cfg: &CommandSpec)
    ensures e is Node && kind_of(e) == ItemFormula && !s.to.skip ==> txt(e, s, cfg) == w_formula(kids(e), s, fold(How::All, kids(e), kids(e).len(), height(e), St { mode: LaTeXMode::Math, ..s }, cfg)),
{
}
pub proof fn txt_curly(e: Elem, s: St, cfg: &CommandSpec)
    ensures e is Node && kind_of(e) == ItemCurly && !s.to.skip ==> txt(e, s, cfg) == w_curly(kids(e), s, fold(How::All, kids(e), kids(e).len(), height(e), s_curly(s), cfg)),
{
}
pub proof fn txt_lr(e: Elem, s: St, cfg: &CommandSpec)
    ensures e is Node && kind_of(e) == ClauseLR && !s.to.skip ==> txt(e, s, cfg) == w_lr(kids(e), fold(How::Lr, kids(e), kids(e).len(), height(e), s, cfg)),
        kids(e).len() > 0 ==> fold(How::Lr, kids(e), 1, height(e), s, cfg) == (Seq::<char>::empty(), s.to),
{
    assert(fold(How::Lr, kids(e), 0, height(e), s, cfg) == (Seq::<char>::empty(), s.to));
}
pub proof fn txt_attach(e: Elem, s: St, cfg: &CommandSpec)
    ensures e is Node && kind_of(e) == ItemAttachComponent && !s.to.skip ==> txt(e, s, cfg) == if s.mode == LaTeXMode::Math { w_attach(attach(kids(e), kids(e).len(), height(e), s, cfg)) } else { fold(How::All, kids(e), kids(e).len(), height(e), s, cfg) },
{
}
pub proof fn txt_sym(e: Elem, s: St, cfg: &CommandSpec)
    ensures e is Tok && kind_of(e) == TokenCommandSym && !s.to.skip ==> txt(e, s, cfg) == leaf(kind_of(e), tok_text(e), s, cfg),
{
}
pub open spec fn colour_out(e: Elem, s: St, cfg: &CommandSpec) -> Out {
    let q = colour_parts(kids(e));
    let p = fold(How::All, front(q), front(q).len(), height(e), St { mode: LaTeXMode::Text, ..s }, cfg);
    w_colour(kids(e), s, cfg, p, fold(colour_how(s), behind(q), behind(q).len(), height(e), St { to: p.1, ..s }, cfg))
}
pub proof fn colour_text(o: Seq<char>, n: Seq<char>, m: Seq<char>, p: Seq<char>, r: Seq<char>)
    ensures
        (((((o + (n + "("@) + m).push('[') + p + "]"@).push(')')).push('[')) + r).push(']') == o + w_coloured(n, m, p, r, false),
        ((((((o + (n + "("@) + m).push('[') + p + "]"@).push(')')).push('[')) + r).push(']')).push(';') == o + w_coloured(n, m, p, r, true),
{
    broadcast use {cat_cat, push_cat};
    assert(seq![']', ';'] =~= seq![']'] + seq![';']);
}
pub proof fn colour_step(o: Seq<char>, s: St, r: Out, e: Elem, x: Out, n: nat, m: nat)
    ensures
        o + put(colour_how(s), r, e, x, n, m).0 == if s.mode == LaTeXMode::Math { (((o + r.0).push('$')) + x.0).push('$') } else { (o + r.0) + x.0 },
        put(colour_how(s), r, e, x, n, m).1 == x.1,
{
    broadcast use {cat_cat, push_cat};
}
pub proof fn colour_one(e: Elem, q: Seq<Elem>, s: St, cfg: &CommandSpec)
    ensures
        q.len() > 0 && height(q[0]) < height(e) ==> fold(How::All, front(q), front(q).len(), height(e), s, cfg) == txt(q[0], s, cfg),
        q.len() == 0 ==> fold(How::All, front(q), front(q).len(), height(e), s, cfg).1 == s.to,
{
    if q.len() > 0 {
        fold_zero(How::All, front(q), height(e), s, cfg);
        fold_next(How::All, front(q), 0, height(e), s, cfg);
        let x = txt(q[0], s, cfg);
        assert(front(q).len() == 1 && front(q)[0] == q[0]);
        assert((0int + 1) as nat == front(q).len());
        assert(put_st(How::All, (Seq::<char>::empty(), s.to), s) == s);
        assert(Seq::<char>::empty() + x.0 =~= x.0);
    } 
}
pub proof fn colour_kids(e: Elem, cfg: &CommandSpec)
    ensures
        plain(e, cfg) && kind_of(e) == ItemCmd && is_color(vx_cname(kids(e))) ==> tok_at(kids(e), ClauseCommandName, 0) is Some && bs(tok_at(kids(e), ClauseCommandName, 0)->0),
        ({ let q = colour_parts(kids(e));
           &&& forall|i: int| 0 <= i < q.len() ==> height(#[trigger] q[i]) < height(e) && (plain(e, cfg) && kind_of(e) == ItemCmd ==> plain(q[i], cfg))
           &&& forall|i: int| 0 <= i < q.len() - 1 ==> height(#[trigger] behind(q)[i]) < height(e) && (plain(e, cfg) && kind_of(e) == ItemCmd ==> plain(behind(q)[i], cfg)) }),
{
    let ch = kids(e);
    let a = args_of(ch);
    let q = colour_parts(ch);
    args_in(ch);
    assert forall|i: int| 0 <= i < a.len() implies height(#[trigger] a[i]) < height(e) && (plain(e, cfg) && kind_of(e) == ItemCmd ==> plain(a[i], cfg)) by {
        assert(ch.contains(a[i]));
        let j = choose|j: int| 0 <= j < ch.len() && ch[j] == a[i];
        kid_height(e, j);
    }
    if vx_cname(ch) == "color"@ {
        if a.len() > 0 && 0 <= colour_at(kids(a[0])) <= kids(a[0]).len() {
            assert forall|i: int| 0 <= i < q.len() implies height(#[trigger] q[i]) < height(e) && (plain(e, cfg) && kind_of(e) == ItemCmd ==> plain(q[i], cfg)) by {
                kid_height(a[0], colour_at(kids(a[0])) + i);
                assert(q[i] == kids(a[0])[colour_at(kids(a[0])) + i]);
            }
        }
    } else {
        assert forall|i: int| 0 <= i < q.len() implies height(#[trigger] q[i]) < height(e) && (plain(e, cfg) && kind_of(e) == ItemCmd ==> plain(q[i], cfg)) by {
            assert(q[i] == a[i + (if a.len() > 0 && is_model(a[0]) { 1int } else { 0int })]);
        }
    }
    assert forall|i: int| 0 <= i < q.len() - 1 implies height(#[trigger] behind(q)[i]) < height(e) && (plain(e, cfg) && kind_of(e) == ItemCmd ==> plain(behind(q)[i], cfg)) by {
        assert(behind(q)[i] == q[i + 1]);
    }
}
pub proof fn txt_cmd(e: Elem, s: St, cfg: &CommandSpec)
    ensures e is Node && kind_of(e) == ItemCmd && !s.to.skip ==> {
        let ch = kids(e);
        let h = height(e);
        let a = pick(ch, ClauseCommandName, false);
        let n = typst_name(ch, s, cfg);
        txt(e, s, cfg) == if vx_cname(ch) == "item"@ { (item_text(s), s.to) } else if vx_cname(ch) == "label"@ { w_label(label_of(args_of(ch)[0]), s) } else if vx_cname(ch) == "includegraphics"@ { (w_image(args_of(ch)), s.to) } else if is_color(vx_cname(ch)) { colour_out(e, s, cfg) } else {
            match cfg.cmds()[vx_cname(ch)].args {
                ArgShape::Right { pattern: ArgPattern::None } => (n.push(' '), s.to),
                ArgShape::Right { pattern: ArgPattern::Greedy } => w_call(n, fold(How::Greedy, kids(a[0]), kids(a[0]).len(), h, s_cmd(n, s), cfg)),
                _ => if s.mode == LaTeXMode::Math && !starts(n, '#') { w_call(n, fold(How::Call, a, a.len(), h, s_cmd(n, s), cfg)) }
                    else { w_body(n, fold(How::Body, a, a.len(), h, s_cmd(n, s), cfg)) },
            }
        }
    },
{
}
/// what an environment that is no list writes before its label
pub open spec fn env_body(e: Elem, s: St, cfg: &CommandSpec) -> Out {
    let ch = kids(e);
    let n = env_name(ch);
    let d = cfg.envs()[n];
    let h = height(e);
    if math_feature(d.ctx_feature) { math_out(e, named_as(d.alias, n), d, s, cfg) }
    else if d.ctx_feature == ContextFeature::IsFigure { fig_out(e, named_as(d.alias, n), nolabel(s), cfg) }
    else if d.ctx_feature == ContextFeature::IsTable { tab_out(e, named_as(d.alias, n), nolabel(s), cfg) }
    else { w_env(named_as(d.alias, n), fold(How::Inside, ch, ch.len(), h, St { env: LaTeXEnv::None, ..nolabel(s) }, cfg)) }
}
pub open spec fn math_out(e: Elem, n: Seq<char>, d: EnvShape, s: St, cfg: &CommandSpec) -> Out {
    let ch = kids(e);
    let a = args_of(kids(ch[0]));
    let p = fold(How::Args, a, a.len(), height(e), s_math(d, s), cfg);
    w_math(n, s, p, fold(How::Inside, ch, ch.len(), height(e), St { to: p.1, ..s_math(d, s) }, cfg))
}
pub proof fn txt_env(e: Elem, s: St, cfg: &CommandSpec)
    ensures e is Node && kind_of(e) == ItemEnv && !s.to.skip ==> {
        let ch = kids(e);
        let d = cfg.envs()[env_name(ch)];
        if list_feature(d.ctx_feature) { txt(e, s, cfg) == fold(How::Inside, ch, ch.len(), height(e), s_list(d, s), cfg) }
        else { txt(e, s, cfg) == end_env(s, env_body(e, s, cfg)) }
    },
{
}
pub proof fn env_parts(e: Elem, s: St, cfg: &CommandSpec)
    ensures ({
        let n = env_name(kids(e));
        let d = cfg.envs()[n];
        &&& d.ctx_feature == ContextFeature::IsFigure ==> env_body(e, s, cfg) == fig_out(e, named_as(d.alias, n), nolabel(s), cfg)
        &&& d.ctx_feature == ContextFeature::IsTable ==> env_body(e, s, cfg) == tab_out(e, named_as(d.alias, n), nolabel(s), cfg)
    }),
{
}
/// the text of the environment o of math
pub proof fn env_math(e: Elem, s: St, cfg: &CommandSpec, o: Seq<char>)
    ensures ({
        let ch = kids(e);
        let n = env_name(ch);
        let d = cfg.envs()[n];
        let a = args_of(kids(ch[0]));
        let p = fold(How::Args, a, a.len(), height(e), s_math(d, s), cfg);
        let r = fold(How::Inside, ch, ch.len(), height(e), St { to: p.1, ..s_math(d, s) }, cfg);
        let t = named_as(d.alias, n);
        &&& math_feature(d.ctx_feature) ==> env_body(e, s, cfg).1 == r.1
        &&& math_feature(d.ctx_feature) && s.mode == LaTeXMode::Math ==> o + env_body(e, s, cfg).0 == ((o + t).push('(') + p.0 + r.0).push(')')
        &&& math_feature(d.ctx_feature) && s.mode != LaTeXMode::Math ==> o + env_body(e, s, cfg).0 == ((o + "$ "@ + t).push('(') + p.0 + r.0).push(')') + " $"@
    }),
{
    let ch = kids(e);
    let n = env_name(ch);
    let d = cfg.envs()[n];
    let a = args_of(kids(ch[0]));
    let p = fold(How::Args, a, a.len(), height(e), s_math(d, s), cfg);
    let r = fold(How::Inside, ch, ch.len(), height(e), St { to: p.1, ..s_math(d, s) }, cfg);
    env_text(o, "$ "@, named_as(d.alias, n), p.0, r.0, " $"@);
}
pub proof fn env_none(e: Elem, s: St, cfg: &CommandSpec, o: Seq<char>)
    ensures ({
        let ch = kids(e);
        let n = env_name(ch);
        let d = cfg.envs()[n];
        let r = fold(How::Inside, ch, ch.len(), height(e), St { env: LaTeXEnv::None, ..nolabel(s) }, cfg);
        &&& d.ctx_feature == ContextFeature::None ==> env_body(e, s, cfg).1 == r.1
        &&& d.ctx_feature == ContextFeature::None ==> o + env_body(e, s, cfg).0 == (o.push('#') + named_as(d.alias, n)).push('[') + r.0 + "];"@
    }),
{
    broadcast use {cat_cat, push_cat};
}
pub proof fn end_text(o: Seq<char>, s: St, r: Out)
    ensures
        s.mode == LaTeXMode::Text && r.1.label is Some ==> o + end_env(s, r).0 == ((o + r.0).push('<') + r.1.label->0).push('>'),
        !(s.mode == LaTeXMode::Text && r.1.label is Some) ==> end_env(s, r).0 == r.0,
        end_env(s, r).1 == if s.mode == LaTeXMode::Text || r.1.label is None { To { label: s.to.label, ..r.1 } } else { r.1 },
{
    broadcast use {cat_cat, push_cat};
}
pub open spec fn tab_out(e: Elem, n: Seq<char>, s: St, cfg: &CommandSpec) -> Out {
    w_tab(n, label_of(args_of(kids(kids(e)[0]))[0]), tab(kids(e), kids(e).len(), height(e), s_tab(s), cfg))
}
pub proof fn tab_text(o: Seq<char>, n: Seq<char>, c: Seq<char>, a: Seq<char>, v: Seq<char>, r: Seq<char>)
    ensures
        (o.push('#') + n).push('(') + "stroke: none,\n"@ + c + "align: ("@ + a + "),\n"@ + v + "\n"@ + r + ");"@
            == o + (seq!['#'] + n + seq!['('] + "stroke: none,\n"@ + c + "align: ("@ + a + "),\n"@ + v + "\n"@ + r + Seq::<char>::empty() + ");"@),
        (o.push('#') + n).push('(') + "stroke: none,\n"@ + c + "align: ("@ + a + "),\n"@ + v + "\n"@ + r + "],\n"@ + ");"@
            == o + (seq!['#'] + n + seq!['('] + "stroke: none,\n"@ + c + "align: ("@ + a + "),\n"@ + v + "\n"@ + r + "],\n"@ + ");"@),
{
    broadcast use {cat_cat, push_cat};
    assert(Seq::<char>::empty() + ");"@ =~= ");"@);
}
pub open spec fn fig_out(e: Elem, n: Seq<char>, s: St, cfg: &CommandSpec) -> Out {
    let c = cap_of(kids(e), kids(e).len());
    let p = fold(How::All, c, c.len(), height(e), s_fig(s), cfg);
    w_fig(n, c, p, fold(How::Fig, kids(e), kids(e).len(), height(e), St { to: p.1, ..s_fig(s) }, cfg))
}
pub proof fn fig_caption(e: Elem, s: St, cfg: &CommandSpec)
    ensures ({
        let c = cap_of(kids(e), kids(e).len());
        let p = fold(How::All, c, c.len(), height(e), s_fig(s), cfg);
        &&& c.len() == 0 ==> p == (Seq::<char>::empty(), s.to)
        &&& c.len() > 0 ==> c.len() == 1 && height(c[0]) < height(e) && p.0 =~= txt(c[0], s_fig(s), cfg).0 && p.1 == txt(c[0], s_fig(s), cfg).1
            && (plain(e, cfg) && kind_of(e) == ItemEnv ==> plain(c[0], cfg))
    }),
{
    let ch = kids(e);
    let c = cap_of(ch, ch.len());
    caption_in(ch, ch.len());
    fold_zero(How::All, c, height(e), s_fig(s), cfg);
    fold_next(How::All, c, 0, height(e), s_fig(s), cfg);
    if c.len() > 0 {
        let i = choose|i: int| 0 <= i < ch.len() && named(ch[i], "\\caption"@) && args_of(kids(ch[i])).len() > 0 && c =~= seq![args_of(kids(ch[i]))[0]];
        kid_height(e, i);
        cap_plain(ch[i], cfg);
        if plain(e, cfg) && kind_of(e) == ItemEnv {
            assert(!begin_end(ch[i]));
            assert(plain(ch[i], cfg));
        }
    }
}
pub proof fn cap_plain(c: Elem, cfg: &CommandSpec)
    requires kind_of(c) == ItemCmd, args_of(kids(c)).len() > 0,
    ensures height(args_of(kids(c))[0]) < height(c), plain(c, cfg) ==> plain(args_of(kids(c))[0], cfg),
{
    let ch = kids(c);
    args_in(ch);
    assert(ch.contains(args_of(ch)[0]));
    let j = choose|j: int| 0 <= j < ch.len() && ch[j] == args_of(ch)[0];
    kid_height(c, j);
}
pub proof fn caption_in(ch: Seq<Elem>, n: nat)
    requires n <= ch.len(),
    ensures cap_of(ch, n).len() > 0 ==> exists|i: int| 0 <= i < ch.len() && #[trigger] named(ch[i], "\\caption"@) && args_of(kids(ch[i])).len() > 0 && cap_of(ch, n) =~= seq![args_of(kids(ch[i]))[0]],
    decreases n,
{
    if n > 0 {
        if named(ch[n - 1], "\\caption"@) { } else { caption_in(ch, (n - 1) as nat); }
    }
}
pub proof fn fig_lits()
    ensures "\\caption"@.skip(1) == "caption"@, "\\centering"@.skip(1) != "caption"@, "\\centering"@ != "\\caption"@,
{
    reveal_strlit("caption"); reveal_strlit("\\caption"); reveal_strlit("\\centering");
    assert("\\caption"@.skip(1) =~= "caption"@);
    assert("\\centering"@.len() == 10 && "\\caption"@.len() == 8 && "caption"@.len() == 7);
}
pub proof fn fig_text(o: Seq<char>, n: Seq<char>, p: Seq<char>, r: Seq<char>)
    ensures
        (o.push('#') + n).push('(') + ")["@ + r + "];"@ == o + (seq!['#'] + n + seq!['('] + Seq::<char>::empty() + ")["@ + r + "];"@),
        (o.push('#') + n).push('(') + "caption: ["@ + p + "],"@ + ")["@ + r + "];"@ == o + (seq!['#'] + n + seq!['('] + ("caption: ["@ + p + "],"@) + ")["@ + r + "];"@),
{
    broadcast use {cat_cat, push_cat};
    assert(Seq::<char>::empty() + (")["@ + (r + "];"@)) =~= ")["@ + (r + "];"@));
}
pub proof fn txt_cases(e: Elem, s: St, cfg: &CommandSpec)
    ensures
        e is Tok && kind_of(e) != TokenWhiteSpace ==> txt(e, s, cfg) == leaf(kind_of(e), tok_text(e), noskip(s), cfg),
        e is Tok && kind_of(e) == TokenWhiteSpace ==> txt(e, s, cfg) == leaf(kind_of(e), tok_text(e), s, cfg),
        e is Node && (kind_of(e) == ItemLR || kind_of(e) == ClauseArgument || kind_of(e) == ScopeRoot || kind_of(e) == ItemText || kind_of(e) == ItemBracket || kind_of(e) == ItemParen)
            ==> txt(e, s, cfg) == fold(How::All, kids(e), kids(e).len(), height(e), noskip(s), cfg),
        e is Node && kind_of(e) == ItemBlockComment ==> txt(e, s, cfg) == (Seq::<char>::empty(), noskip(s).to),
        e is Node && kind_of(e) == ItemTypstCode ==> txt(e, s, cfg) == (node_text(e), noskip(s).to),
        kind_of(e) != TokenWhiteSpace ==> txt(e, s, cfg) == txt(e, noskip(s), cfg),
{
}
/// the trees whose whole text is specified
pub open spec fn plain(e: Elem, cfg: &CommandSpec) -> bool
    decreases e,
{
    match e {
        Elem::Tok(k, t) => is_tok_kind(k) || k == TokenError,
        Elem::Node(k, ch) => match k {
            ItemBlockComment | ItemTypstCode => true,
            ItemLR | ClauseArgument | ScopeRoot | ItemText | ItemBracket | ItemParen | ItemFormula | ItemCurly | ItemAttachComponent | ClauseLR =>
                forall|i: int| 0 <= i < ch.len() ==> plain(#[trigger] ch[i], cfg),
            ItemCmd => (is_color(vx_cname(ch)) ==> tok_at(ch, ClauseCommandName, 0) is Some && bs(tok_at(ch, ClauseCommandName, 0)->0)) && forall|i: int| 0 <= i < ch.len() && kind_of(ch[i]) != ClauseCommandName ==> kind_of(ch[i]) == ClauseArgument && plain(#[trigger] ch[i], cfg),
            ItemEnv => {
                &&& env_shape_ok(e)
                &&& math_feature(cfg.envs()[env_name(ch)].ctx_feature) ==> plain_begin(ch[0], cfg)
                &&& forall|i: int| 0 <= i < ch.len() && !begin_end(ch[i]) ==> plain(#[trigger] ch[i], cfg)
            },
            _ => !is_tok_kind(k),
        },
    }
}
pub open spec fn plain_begin(e: Elem, cfg: &CommandSpec) -> bool
    decreases e,
{
    match e {
        Elem::Tok(..) => true,
        Elem::Node(_, ch) => forall|i: int| 0 <= i < ch.len() && kind_of(ch[i]) == ClauseArgument && ch[i] is Node ==> plain(#[trigger] ch[i], cfg),
    }
}
[C14] pub proof fn tok_at_is(ch: Seq<Elem>, k: SyntaxKind, i: nat)
[C14]     ensures tok_at(ch, k, i) is Some ==> exists|j: int| 0 <= j < ch.len() && #[trigger] ch[j] is Tok && kind_of(ch[j]) == k && tok_text(ch[j]) == tok_at(ch, k, i)->0,
[C14]     decreases ch.len() - i,
[C14] {
[C14]     if i < ch.len() { tok_at_is(ch, k, i + 1); }
[C14] }
[C14] /// the specified trees are all those the parser builds
[C14] pub proof fn wf_plain(e: Elem, cfg: &CommandSpec)
[C14]     requires wf(e, cfg),
[C14]     ensures plain(e, cfg),
[C14]     decreases e,
[C14] {
[C14]     match e {
[C14]         Elem::Tok(..) => {}
[C14]         Elem::Node(k, ch) => {
[C14]             let b = if k == ItemBegin { 1int } else { 0int };
[C14]             if !is_raw(k) {
[C14]                 assert forall|i: int| b <= i < ch.len() implies plain(#[trigger] ch[i], cfg) by { wf_plain(ch[i], cfg); }
[C14]             }
[C14]             if k == ItemCmd {
[C14]                 tok_at_is(ch, ClauseCommandName, 0);
[C14]                 pick_in(ch, ClauseCommandName, false);
[C14]                 assert forall|i: int| 0 <= i < ch.len() && kind_of(ch[i]) != ClauseCommandName implies kind_of(ch[i]) == ClauseArgument && plain(#[trigger] ch[i], cfg) by {
[C14]                     let a = pick(ch, ClauseCommandName, false);
[C14]                     assert(a.contains(ch[i]));
[C14]                     let j = choose|j: int| 0 <= j < a.len() && a[j] == ch[i];
[C14]                     assert(kind_of(a[j]) == ClauseArgument);
[C14]                 }
[C14]             }
[C14]             if k == ItemEnv {
[C14]                 assert(wf(ch[0], cfg));
[C14]                 let c = kids(ch[0]);
[C14]                 assert forall|i: int| 0 <= i < c.len() && kind_of(c[i]) == ClauseArgument && c[i] is Node implies plain(#[trigger] c[i], cfg) by { wf_plain(c[i], cfg); }
[C14]                 assert(plain_begin(ch[0], cfg));
[C14]                 assert(env_shape_ok(e));
[C14]                 assert(plain(e, cfg));
[C14]             }
[C14]             if k == ItemCmd {
[C14]                 let j = choose|j: int| 0 <= j < ch.len() && #[trigger] ch[j] is Tok && kind_of(ch[j]) == ClauseCommandName && tok_text(ch[j]) == tok_at(ch, ClauseCommandName, 0)->0;
[C14]                 assert(wf(ch[j], cfg));
[C14]                 assert(bs(tok_text(ch[j])));
[C14]                 assert(forall|i: int| 0 <= i < ch.len() && kind_of(ch[i]) != ClauseCommandName ==> kind_of(ch[i]) == ClauseArgument && plain(#[trigger] ch[i], cfg));
[C14]                 assert(plain(e, cfg));
[C14]             }
[C14]             if k != ItemCmd && k != ItemEnv { assert(plain(e, cfg)); }
[C14]         }
[C14]     }
[C14] }
pub proof fn cmd_plain(e: Elem, cfg: &CommandSpec)
    ensures
        forall|i: int| 0 <= i < pick(kids(e), ClauseCommandName, false).len() ==> height(#[trigger] pick(kids(e), ClauseCommandName, false)[i]) < height(e),
        plain(e, cfg) && kind_of(e) == ItemCmd ==> forall|i: int| 0 <= i < pick(kids(e), ClauseCommandName, false).len() ==> plain(#[trigger] pick(kids(e), ClauseCommandName, false)[i], cfg)
            && kind_of(pick(kids(e), ClauseCommandName, false)[i]) == ClauseArgument,
{
    let ch = kids(e);
    let p = pick(ch, ClauseCommandName, false);
    pick_in(ch, ClauseCommandName, false);
    assert forall|i: int| 0 <= i < p.len() implies height(#[trigger] p[i]) < height(e) && (plain(e, cfg) && kind_of(e) == ItemCmd ==> plain(p[i], cfg) && kind_of(p[i]) == ClauseArgument) by {
        assert(ch.contains(p[i]));
        let j = choose|j: int| 0 <= j < ch.len() && ch[j] == p[i];
        kid_height(e, j);
    }
}
pub proof fn env_plain(e: Elem, cfg: &CommandSpec)
    ensures
        kids(e).len() > 0 ==> forall|i: int| 0 <= i < args_of(kids(kids(e)[0])).len() ==> height(#[trigger] args_of(kids(kids(e)[0]))[i]) < height(e),
        plain(e, cfg) && kind_of(e) == ItemEnv && math_feature(cfg.envs()[env_name(kids(e))].ctx_feature) ==> forall|i: int| 0 <= i < args_of(kids(kids(e)[0])).len() ==> plain(#[trigger] args_of(kids(kids(e)[0]))[i], cfg),
{
    if kids(e).len() > 0 {
        let b = kids(e)[0];
        let a = args_of(kids(b));
        args_in(kids(b));
        kid_height(e, 0);
        assert forall|i: int| 0 <= i < a.len() implies height(#[trigger] a[i]) < height(e) && (plain(e, cfg) && kind_of(e) == ItemEnv && math_feature(cfg.envs()[env_name(kids(e))].ctx_feature) ==> plain(a[i], cfg)) by {
            assert(kids(b).contains(a[i]));
            let j = choose|j: int| 0 <= j < kids(b).len() && kids(b)[j] == a[i];
            kid_height(b, j);
            if plain(e, cfg) && kind_of(e) == ItemEnv && math_feature(cfg.envs()[env_name(kids(e))].ctx_feature) {
                assert(e is Node);
                assert(plain_begin(b, cfg));
                assert(plain(kids(b)[j], cfg));
            }
        }
    }
}
pub proof fn lits()
    ensures
        "item"@ != "label"@, "item"@ != "color"@, "item"@ != "includegraphics"@, "item"@ != "textcolor"@, "item"@ != "colorbox"@,
        "label"@ != "color"@, "label"@ != "includegraphics"@, "label"@ != "textcolor"@, "label"@ != "colorbox"@,
        "color"@ != "includegraphics"@, "color"@ != "textcolor"@, "color"@ != "colorbox"@,
        "includegraphics"@ != "textcolor"@, "includegraphics"@ != "colorbox"@, "textcolor"@ != "colorbox"@,
{
    reveal_strlit("item"); reveal_strlit("label"); reveal_strlit("color"); reveal_strlit("includegraphics"); reveal_strlit("textcolor"); reveal_strlit("colorbox");
    assert("textcolor"@[0] != "includegraphics"@[0]);
    assert("label"@[0] != "color"@[0]);
    assert("textcolor"@[0] != "colorbox"@[0]);
    assert("item"@.len() == 4 && "label"@.len() == 5 && "color"@.len() == 5 && "includegraphics"@.len() == 15 && "textcolor"@.len() == 9 && "colorbox"@.len() == 8);
}
pub proof fn kid_step(e: Elem, r: Seq<Elem>, cfg: &CommandSpec)
    requires walk(kids(e), r), r.len() > 0, wf(e, cfg), !is_raw(kind_of(e)), kind_of(e) != ItemBegin,
    ensures r[0] == kids(e)[kids(e).len() - r.len()], height(r[0]) < height(e), wf(r[0], cfg),
{
    kid_height(e, kids(e).len() - r.len());
    kid_wf(e, cfg, kids(e).len() - r.len());
}
pub open spec fn room(i: usize, n: nat) -> bool { i + n <= usize::MAX }
pub open spec fn special(n: Seq<char>) -> bool {
    n == "item"@ || n == "label"@ || n == "color"@ || n == "includegraphics"@ || n == "textcolor"@ || n == "colorbox"@
}
""")
o.append("""@@ fn conv Converter::enter_mode ret=r
@spec
    ensures r == old(self).mode, *final(self) == (Converter { mode: context, ..*old(self) }),
@@ fn conv Converter::exit_mode
@spec
    ensures *final(self) == (Converter { mode: prev, ..*old(self) }),
@@ fn conv Converter::enter_env ret=r
@spec
[C16]    requires is_list(context) ==> old(self).indent + 2 <= usize::MAX,
    ensures
        r == old(self).env, final(self).env == context, final(self).mode == old(self).mode,
        final(self).indent == old(self).indent + (if is_list(context) { 2int } else { 0int }),
        final(self).skip_next_space == old(self).skip_next_space, final(self).label == old(self).label,
@@ fn conv Converter::exit_env
@spec
[C16]    requires is_list(old(self).env) ==> old(self).indent >= 2,
    ensures
        final(self).env == prev, final(self).mode == old(self).mode,
        final(self).indent == old(self).indent - (if is_list(old(self).env) { 2int } else { 0int }),
        final(self).skip_next_space == old(self).skip_next_space, final(self).label == old(self).label,
@@ fn syn CmdItem::name_tok ret=r
@spec
    ensures
        (r is Some) == (tok_at(kids(self.0.el()), ClauseCommandName, 0) is Some),
        r is Some ==> r->0.el() is Tok && kind_of(r->0.el()) == ClauseCommandName && kids(self.0.el()).contains(r->0.el())
            && tok_text(r->0.el()) == tok_at(kids(self.0.el()), ClauseCommandName, 0)->0,
@loopstart 0
broadcast use {ax_node, ax_tok, els_skip};
let ghost vx_n = kids(self.0.el()).len() - vx_it.rest().len();
proof {
    if vx_it.rest().len() > 0 {
        assert(els(vx_it.rest())[0] == vx_it.rest()[0].el());
        assert(kids(self.0.el())[vx_n] == els(vx_it.rest())[0]);
        match vx_it.rest()[0] { LatexSyntaxElem::Node(n) => { assert(node_el(n) is Node); } LatexSyntaxElem::Token(n) => { assert(tok_el(n) is Tok); } }
    }
}
@loop 0
    invariant_except_break
        vx_r is None,
        tok_at(kids(self.0.el()), ClauseCommandName, 0) == tok_at(kids(self.0.el()), ClauseCommandName, (kids(self.0.el()).len() - vx_it.rest().len()) as nat),
    invariant
        walk(kids(self.0.el()), els(vx_it.rest())),
    ensures
        (vx_r is Some) == (tok_at(kids(self.0.el()), ClauseCommandName, 0) is Some),
        vx_r is Some ==> vx_r->0.el() is Tok && kind_of(vx_r->0.el()) == ClauseCommandName && kids(self.0.el()).contains(vx_r->0.el())
            && tok_text(vx_r->0.el()) == tok_at(kids(self.0.el()), ClauseCommandName, 0)->0,
    decreases vx_it.rest().len(),
@@ fn syn CmdItem::arguments ret=r
@spec
    ensures els(r.rest()) == args_of(kids(self.0.el())),
@@ fn syn BeginItem::name ret=r
@spec
    ensures
        kids(self.0.el()).len() > 0 && kids(self.0.el())[0] is Tok && kind_of(kids(self.0.el())[0]) == TokenCommandSym
            ==> r is Some && r->0.el() == kids(self.0.el())[0],
@@ fn syn BeginItem::arguments ret=r
@spec
    ensures els(r.rest()) == args_of(kids(self.0.el())),
@@ fn syn EnvItem::begin ret=r
@spec
    ensures
        kids(self.0.el()).len() > 0 && kids(self.0.el())[0] is Node && kind_of(kids(self.0.el())[0]) == ItemBegin
            ==> r is Some && (r->0).0.el() == kids(self.0.el())[0],
@loopstart 0
broadcast use {ax_node, ax_tok, els_skip};
proof { nodes_first(kids(self.0.el())); }
@loop 0
    invariant_except_break
        vx_r is None,
        els(vx_it.rest()) =~= nodes(kids(self.0.el())) || !(kids(self.0.el()).len() > 0 && kids(self.0.el())[0] is Node && kind_of(kids(self.0.el())[0]) == ItemBegin),
    ensures
        kids(self.0.el()).len() > 0 && kids(self.0.el())[0] is Node && kind_of(kids(self.0.el())[0]) == ItemBegin
            ==> vx_r is Some && (vx_r->0).0.el() == kids(self.0.el())[0],
    decreases vx_it.rest().len(),
@@ fn syn EnvItem::name_tok ret=r
@spec
    ensures
        env_shape_ok(self.0.el()) ==> r is Some && r->0.el() == kids(kids(self.0.el())[0])[0],
@@ fn syn EnvItem::arguments ret=r
@spec
    ensures
        env_shape_ok(self.0.el()) ==> els(r.rest()) == args_of(kids(kids(self.0.el())[0])),
@@ fn syn FormulaItem::is_valid ret=r
@spec
    ensures r == formula_ok(kids(self.0.el())),
@start
broadcast use {ax_node, ax_tok, els_skip};
@@ fn syn FormulaItem::is_inline ret=r
@spec
[C14]    ensures formula_ok(kids(self.0.el())) ==> r == inline(kids(self.0.el())),
@@ text
pub open spec fn env_shape_ok(e: Elem) -> bool {
    let b = kids(e)[0];
    kids(e).len() > 0 && b is Node && kind_of(b) == ItemBegin && kids(b).len() > 0 && kids(b)[0] is Tok && kind_of(kids(b)[0]) == TokenCommandSym
}
pub proof fn nodes_first(ch: Seq<Elem>)
    ensures ch.len() > 0 && ch[0] is Node ==> nodes(ch).len() > 0 && nodes(ch)[0] == ch[0],
    decreases ch.len(),
{
    if ch.len() > 1 { nodes_first(ch.drop_last()); }
    if ch.len() == 1 { assert(nodes(ch.drop_last()).len() == 0); }
}
""")
# convert
TT="tok_text(elem.el())"
o.append(fn("convert", 3, body=
 "@start\nproof { lits(); }\n[C14] broadcast use els_idx;\n[C14] proof { txt_cases(elem.el(), st(*self), spec); txt_cmd(elem.el(), noskip(st(*self)), spec); }\n"
 + lp(0, tx="All")
 + "[C14] @beforeloop 1\n[C14] let ghost vx_f1 = f@;\n@loop 1\n    invariant true,\n[C13]        same(*self, *old(self)),\n[C14]        vx_it.rest() == "+TT+".skip("+TT+".len() - vx_it.rest().len()), vx_it.rest().len() <= "+TT+".len(), f@ =~= vx_f1 + spaced("+TT+", ("+TT+".len() - vx_it.rest().len()) as nat),\n    decreases vx_it.rest().len(),\n"
 + "[C14] @beforeloop 2\n[C14] let ghost vx_f2 = f@;\n@loop 2\n    invariant same(*self, *old(self)),\n[C14]        vx_e0 == self.indent, vx_k0 <= vx_e0, f@ =~= vx_f2 + blanks(vx_k0 as nat),\n    decreases vx_e0 - vx_k0,\n"))
o.append(fn("convert_formula", 2, kind="ItemFormula", body=lp(0, tx="All")))
o.append(fn("convert_curly_group", 2, kind="ItemCurly", body=lp(0, tx="All", extra="[C14]        zws == (forall|i: int| 0 <= i < kids(elem.el()).len() - vx_it.rest().len() ==> blank_kind(kind_of(#[trigger] kids(elem.el())[i]))),\n")))
o.append(fn("convert_clause_lr", 2, kind="ClauseLR", body=lp(0, tx="Lr", extra="[C14]        vx_it.rest().len() < kids(elem.el()).len(),\n", cl="forall|i: int| 1 <= i < kids(elem.el()).len() - vx_it.rest().len() ==> clean(#[trigger] kids(elem.el())[i], spec, is_list(old(self).env))")))
o.append(fn("convert_attach_component", 2, kind="ItemAttachComponent", body=lp(0, tx="attach")+lp(1, tx="All")))
o.append(fn("convert_command_sym", 2, kind="TokenCommandSym"))
o.append(fn("convert_command_item", 0, wf=False, rec=False, clean=False, req=[((16,),"ready(*old(self), 0)")], ens=["[C15]        r is Ok ==> is_list(old(self).env),","[C14]        r is Ok ==> *final(self) == *old(self) && final(f)@ =~= old(f)@ + item_text(st(*old(self))),"], body="@loop 0\n    invariant same(*self, *old(self)),\n[C14]        *self == *old(self), vx_e0 == (self.indent - 2) as nat, vx_k0 <= vx_e0, f@ =~= old(f)@ + seq!['\\n'] + blanks(vx_k0 as nat),\n    decreases vx_e0 - vx_k0,\n"))
o.append(fn("convert_command_label", 0, wf=False, rec=False, clean=False, ens=["[C15]        r is Ok ==> args_of(kids(cmd.0.el())).len() > 0,","[C14]        r is Ok ==> final(f)@ =~= old(f)@ + w_label(label_of(args_of(kids(cmd.0.el()))[0]), st(*old(self))).0 && to(*final(self)) == w_label(label_of(args_of(kids(cmd.0.el()))[0]), st(*old(self))).1,"]))
IA="args_of(kids(cmd.0.el()))"
def find(k, K): return f"""[C14] @beforeloop {k}
[C14] proof {{ walk_init({IA}); walk_step({IA}, {IA}); }}
[C14] @loopstart {k}
[C14] proof {{ walk_step({IA}, els(vx_it.rest())); if vx_it.rest().len() > 0 {{ assert(els(vx_it.rest())[0] == vx_it.rest()[0].el()); }} }}
@loop {k}
    invariant true,
[C13]        same(*self, *old(self)),
[C14]        walk({IA}, els(vx_it.rest())),
[C14]        vx_r is None, arg_in({IA}, 0, {K}) == arg_in({IA}, {IA}.len() - vx_it.rest().len(), {K}),
    decreases vx_it.rest().len(),
[C14] @afterloop {k}
[C14] proof {{ assert(vx_r is Some ==> arg_in({IA}, 0, {K}) == Some(vx_r->0.el())); assert(vx_r is None ==> arg_in({IA}, 0, {K}) is None); }}
"""
def image(k, extra, pre=""): return f"""{pre}@loop {k}
    invariant true,
[C13]        same(*self, *old(self)),
{extra}    decreases vx_it.rest().len(),
"""
OP="options("+IA+")"
o.append(fn("convert_command_includegraphics", 0, wf=False, rec=False, hide=True, tx=False, clean=False, ens=["[C14]        r is Ok ==> *final(self) == *old(self) && final(f)@ =~= old(f)@ + w_image("+IA+"),"], body=
 find(0,"ItemBracket")+find(1,"ItemCurly")
 +image(2,f"[C14]        vx_it.rest().len() + vx_o@.len() == {OP}.len(), forall|i: int| 0 <= i < vx_it.rest().len() ==> (*#[trigger] vx_it.rest()[i])@ == {OP}[vx_o@.len() + i],\n[C14]        forall|i: int| 0 <= i < vx_o@.len() ==> option_is(#[trigger] vx_o@[i], {OP}[i]),\n")
 +image(3,f"[C14]        vx_it.rest().len() <= {OP}.len(), forall|i: int| 0 <= i < vx_it.rest().len() ==> option_is(*#[trigger] vx_it.rest()[i], {OP}[{OP}.len() - vx_it.rest().len() + i]),\n[C14]        f@ =~= vx_f3 + w_options({OP}, ({OP}.len() - vx_it.rest().len()) as nat),\n", "[C14] @beforeloop 2\n[C14] proof { assert(arg_text@ == inside(node_text(arg_in("+IA+", 0, ItemBracket)->0), '[', ']')); }\n[C14] @beforeloop 3\n[C14] let ghost vx_f3 = f@;\n")))
L="is_list(old(self).env)"
def simple(k, it="vx_it", frame=True, extra=""):
    r=""
    if frame: r+=f"@beforeloop {k}\nlet ghost vx_c{k} = *self;\n"
    r+=f"@loop {k}\n    invariant\n"
    if frame: r+=f"[C13]        same(*self, vx_c{k}),\n[C14,C15,C16]        same(*self, vx_c{k}), /*aux*/\n"
    else: r+="        true,\n"
    return r+extra+f"    decreases {it}.rest().len(),\n"
def LW(x): return f"[C15,C16]        lows(els({x}), height(cmd.0.el()), spec),\n"
CA="args_of(kids(cmd.0.el()))"
CK="kids("+CA+"[0])"
WK="[C14,C15]        walk("+CK+", els(iter.rest())), "+CA+".len() > 0,\n"
Q1="behind(colour_parts(kids(cmd.0.el())))"
QS="colour_how(st(*old(self))), "+Q1+", height(cmd.0.el()), st(vx_c5), spec"
QI="[C14]        plain(cmd.0.el(), spec) ==> walk("+Q1+", els(vx_it.rest())),\n[C14]        plain(cmd.0.el(), spec) ==> f@ =~= vx_f5 + fold(colour_how(st(*old(self))), "+Q1+", ("+Q1+".len() - vx_it.rest().len()) as nat, height(cmd.0.el()), st(vx_c5), spec).0 && to(*self) == fold(colour_how(st(*old(self))), "+Q1+", ("+Q1+".len() - vx_it.rest().len()) as nat, height(cmd.0.el()), st(vx_c5), spec).1,\n"
o.append(fn("convert_command_color", 2, tx=False, hide=True, more=("plain","w_coloured","colour_parts","colour_model","put"), tree="cmd.0.el()", kind="ItemCmd", ens=["[C14]        r is Ok && plain(cmd.0.el(), spec) && kind_of(cmd.0.el()) == ItemCmd && !old(self).skip_next_space ==> final(f)@ =~= old(f)@ + colour_out(cmd.0.el(), st(*old(self)), spec).0 && to(*final(self)) == colour_out(cmd.0.el(), st(*old(self)), spec).1,"], req=[((14,15),"is_color(vx_cname(kids(cmd.0.el())))")], body=
 "@start\n[C15,C16] broadcast use {els_idx, low_kids};\n[C14] broadcast use els_idx;\n[C14] proof { lits(); color_lits(); colour_kids(cmd.0.el(), spec);  }\n[C15,C16] proof { low_args(cmd.0.el(), spec); }\n[C15] proof { lits(); color_lits(); }\n"
 +simple(0,"iter",False,LW("iter.rest()")+WK+"[C14,C15]        skip_trivia("+CK+", 0) == skip_trivia("+CK+", "+CK+".len() - iter.rest().len()),\n[C15]        forall|i: int| 0 <= i < "+CK+".len() - iter.rest().len() ==> trivia_kind(kind_of(#[trigger] "+CK+"[i])),\n")
 +"@beforeloop 1\nlet ghost vx_b = "+CK+".len() - iter.rest().len();\n"
 +simple(1,"iter",False,LW("iter.rest()")+WK+"[C14,C15]        past_bracket("+CK+", vx_b) == past_bracket("+CK+", "+CK+".len() - iter.rest().len()),\n[C14]        s@ + model_text("+CK+", "+CK+".len() - iter.rest().len()) =~= model_text("+CK+", vx_b),\n")
 +simple(2,"iter",False,LW("iter.rest()")+WK+"[C14]        colour_at("+CK+") == skip_trivia("+CK+", "+CK+".len() - iter.rest().len()),\n[C15]        color_parts("+CK+", "+CK+".len() - iter.rest().len()),\n")
 +simple(3,"vx_it",False,LW("vx_it.rest()")+LW("vx_o@")+"[C14,C15]        els(vx_o@) + els(vx_it.rest()) =~= "+CA+".skip(if "+CA+".len() >= 2 { 2 } else { "+CA+".len() as int }),\n")
 +simple(4,"vx_it",False,LW("vx_it.rest()")+LW("vx_o@")+"[C14,C15]        els(vx_o@) + els(vx_it.rest()) =~= "+CA+".skip(if "+CA+".len() >= 1 { 1 } else { 0 }),\n")
 +"@beforeloop 5\nlet ghost vx_c5 = *self;\nlet ghost vx_b = els(vx_it.rest());\n[C14] let ghost vx_f5 = f@;\n[C14] proof { walk_init("+Q1+"); walk_step("+Q1+", "+Q1+"); fold_zero("+QS+"); }\n[C14] @loopstart 5\n[C14] proof { walk_step("+Q1+", els(vx_it.rest())); if vx_it.rest().len() > 0 { assert(els(vx_it.rest())[0] == vx_it.rest()[0].el()); assert(plain(cmd.0.el(), spec) ==> "+Q1+"["+Q1+".len() - vx_it.rest().len()] == els(vx_it.rest())[0]); fold_next("+QS.replace(Q1+", ",Q1+", "+Q1+".len() - vx_it.rest().len(), ")+"); let vx_q = "+Q1+"; let vx_n = vx_q.len() - vx_it.rest().len(); let vx_r = fold(colour_how(st(*old(self))), vx_q, vx_n as nat, height(cmd.0.el()), st(vx_c5), spec); colour_step(vx_f5, st(*old(self)), vx_r, vx_q[vx_n], txt(vx_q[vx_n], put_st(colour_how(st(*old(self))), vx_r, st(vx_c5)), spec), (vx_n + 1) as nat, vx_q.len()); } }\n"
 +simple(5,extra=LW("vx_it.rest()")+QI+"[C15]        walk(vx_b, els(vx_it.rest())), done(vx_b, els(vx_it.rest()).len(), spec, "+L+"),\n").split("@loop 5\n")[0].replace("@beforeloop 5\nlet ghost vx_c5 = *self;\n","")
 +"@loop 5\n"+simple(5,extra=LW("vx_it.rest()")+QI+"[C15]        walk(vx_b, els(vx_it.rest())), done(vx_b, els(vx_it.rest()).len(), spec, "+L+"),\n").split("@loop 5\n")[1]
 +"""@before write_str#0
[C14] proof {
[C14]     let vx_q = colour_parts(kids(cmd.0.el()));
[C14]     if plain(cmd.0.el(), spec) && kind_of(cmd.0.el()) == ItemCmd {
[C14]         assert(color is Some ==> vx_q.len() > 0 && vx_q[0] == color->0.el() && els(body@) =~= behind(vx_q)) by { reveal(colour_parts); }
[C14]         assert(color is None ==> vx_q.len() == 0 && els(body@) =~= behind(vx_q)) by { reveal(colour_parts); }
[C14]         assert((match model { Some(m) => "["@ + m@ + "], "@, None => "none, "@ }) == colour_model(kids(cmd.0.el()))) by { reveal(colour_model); }
[C14]         colour_one(cmd.0.el(), vx_q, St { mode: LaTeXMode::Text, ..st(*old(self)) }, spec);
[C14]     }
[C14] }
[C15] assert(color_args(cmd.0.el(), if color is Some { Some(color->0.el()) } else { None }, els(body@))) by {
[C15]     reveal(color_args);
[C15]     let vx_a = args_of(kids(cmd.0.el()));
[C15]     let vx_b = els(body@);
[C15]     let vx_o = if color is Some { Some(color->0.el()) } else { None };
[C15]     if vx_streq_spec(cmd_name@, "\\\\color"@) {
[C15]         assert(color_args_at(kids(vx_a[0]), vx_o, vx_b, kids(vx_a[0]).len() - vx_b.len() - (if color is Some { 1int } else { 0int })));
[C15]     } else {
[C15]         let vx_k = if vx_a.len() > 0 && is_model(vx_a[0]) { 1int } else { 0int };
[C15]         if vx_k < vx_a.len() { assert(color is Some && vx_a[vx_k] == color->0.el()); assert(vx_b =~= vx_a.skip(vx_k + 1)); }
[C15]     }
[C15] }
@end
[C14] proof { if vx_ret is Ok && plain(cmd.0.el(), spec) && kind_of(cmd.0.el()) == ItemCmd {
[C14]     let vx_q = colour_parts(kids(cmd.0.el()));
[C14]     let vx_s = st(*old(self));
[C14]     let vx_p = fold(How::All, front(vx_q), front(vx_q).len(), height(cmd.0.el()), St { mode: LaTeXMode::Text, ..vx_s }, spec);
[C14]     let vx_t = fold(colour_how(vx_s), behind(vx_q), behind(vx_q).len(), height(cmd.0.el()), St { to: vx_p.1, ..vx_s }, spec);
[C14]     colour_text(old(f)@, colour_name(vx_cname(kids(cmd.0.el())), spec), colour_model(kids(cmd.0.el())), if vx_q.len() > 0 { vx_p.0 } else { "black"@ }, vx_t.0);
[C14] } }
[C15] proof { color_end(cmd.0.el(), if color is Some { Some(color->0.el()) } else { None }, els(body@), spec, is_list(old(self).env)); }
"""
 ))
ARGS="[C15,C16] broadcast use els_idx;\n[C15,C16] proof { pick_in(kids(elem.el()), ClauseCommandName, false); below(elem.el(), pick(kids(elem.el()), ClauseCommandName, false), spec); assert(forall|i: int| 0 <= i < pick(kids(elem.el()), ClauseCommandName, false).len() ==> #[trigger] pick(kids(elem.el()), ClauseCommandName, false)[i] is Node); }\n"
def cnt(k): return f"        cnt + vx_it.rest().len() == args_len,\n"
PK="pick(kids(elem.el()), ClauseCommandName, false)"
o.append(fn("convert_normal_command", 2, more=("w_call","w_body"), kind="ItemCmd", req=[((14,15),"!special(vx_cname(kids(elem.el())))")], body=
 "@start\n"+ARGS
 +"[C14] broadcast use els_idx;\n[C14] proof { cmd_plain(elem.el(), spec); cmd_text(old(f)@, typst_name(kids(elem.el()), st(*old(self)), spec), (Seq::empty(), to(*self))); }\n"
 +lp(0, ch="kids("+PK+"[0])", extra=cnt(0), tx="Greedy")
 +lp(1, ch=PK, extra=cnt(1), tx="Call")
 +lp(2, ch=PK, tx="Body")
 +"".join(f"@afterloop {k}\n[C14] proof {{ let vx_n = typst_name(kids(elem.el()), st(*old(self)), spec); cmd_text(old(f)@, vx_n, fold(How::{h}, {c}, {c}.len(), height(elem.el()), s_cmd(vx_n, st(*old(self))), spec)); }}\n" for k,h,c in ((0,"Greedy","kids("+PK+"[0])"),(1,"Call",PK),(2,"Body",PK)))
 +"@end\n[C15] broadcast use arg_clean;\n[C15] proof { cmd_clean(elem.el(), spec, "+L+"); }\n"))
ED="env_done({ch}, els({it}.rest()).len(), spec, "+L+" || list_feature(env_shape.ctx_feature), env_shape.ctx_feature)"
o.append(fn("convert_env", 2, opt=" pass=format", more=("fig_out","tab_out","env_body","math_out","end_env"), kind="ItemEnv", body=
 "@start\n[C15,C16] proof { if kids(elem.el()).len() > 0 { kid_wf(elem.el(), spec, 0); kid_height(elem.el(), 0); args_in(kids(kids(elem.el())[0])); below(kids(elem.el())[0], args_of(kids(kids(elem.el())[0])), spec); } }\n[C15] proof { env_clean(elem.el(), spec, "+L+"); }\n[C14] broadcast use els_idx;\n[C14] proof { env_plain(elem.el(), spec); env_parts(elem.el(), st(*self), spec); end_text(old(f)@, st(*self), env_body(elem.el(), st(*self), spec)); }\n"
 +lp(0,cl=ED,tx="Inside")
 +lp(1,ch="args_of(kids(kids(elem.el())[0]))",walkp="[C15,C16]",guard="plain(elem.el(), spec) && kind_of(elem.el()) == ItemEnv && math_feature(env_shape.ctx_feature) ==> ",tx="Args",extra="[C14]        plain(elem.el(), spec) ==> walk(args_of(kids(kids(elem.el())[0])), els(vx_it.rest())),\n[C14]        plain(elem.el(), spec) ==> vx_i0 as int == args_of(kids(kids(elem.el())[0])).len() - vx_it.rest().len(),\n")
 +lp(2,cl=ED,tx="Inside")+lp(3,cl=ED,tx="Inside")
 +"""@afterloop 2
[C14] proof { env_math(elem.el(), st(*old(self)), spec, old(f)@); }
@afterloop 3
[C14] proof { env_none(elem.el(), st(*old(self)), spec, old(f)@); }
"""
 ))
FD="env_done({ch}, els({it}.rest()).len(), spec, "+L+", ContextFeature::IsFigure)"
TD="env_done({ch}, els({it}.rest()).len(), spec, "+L+", ContextFeature::IsTable)"
ENS=lambda f: ["[C15]        r is Ok ==> env_done(kids(elem.el()), 0, spec, "+L+", ContextFeature::"+f+"),"]
o.append(fn("convert_env_figure", 1, tx=False, hide=True, kind="ItemEnv", clean=False, req=[((15,16),"!is_list(env_kind)")], ens=ENS("IsFigure")+["[C14]        r is Ok && plain(elem.el(), spec) && kind_of(elem.el()) == ItemEnv && env_kind == LaTeXEnv::Figure ==> final(f)@ =~= old(f)@ + fig_out(elem.el(), typst_name@, st(*old(self)), spec).0 && to(*final(self)) == fig_out(elem.el(), typst_name@, st(*old(self)), spec).1,"], body=
 "@start\n[C15,C16] broadcast use {els_idx, low_cmd_args};\n[C14] broadcast use els_idx;\n[C14] proof { fig_lits(); fig_caption(elem.el(), st(*self), spec); }\n"
 +lp(0, cl=None, frame=False, extra="[C15,C16]        caption is Some ==> low(node_el(caption->0), height(elem.el()), spec),\n"
   "[C14]        caption is Some ==> cap_of(kids(elem.el()), (kids(elem.el()).len() - vx_it.rest().len()) as nat) =~= seq![node_el(caption->0)],\n"
   "[C14]        caption is None ==> cap_of(kids(elem.el()), (kids(elem.el()).len() - vx_it.rest().len()) as nat).len() == 0,\n")
 +lp(1, cl=FD, tx="Fig")
 +"@end\n[C14] proof { if vx_ret is Ok && plain(elem.el(), spec) && kind_of(elem.el()) == ItemEnv { let vx_s = st(*old(self)); let vx_e = elem.el(); let vx_c = cap_of(kids(vx_e), kids(vx_e).len()); let vx_p = fold(How::All, vx_c, vx_c.len(), height(vx_e), s_fig(vx_s), spec); fig_text(old(f)@, typst_name@, vx_p.0, fold(How::Fig, kids(vx_e), kids(vx_e).len(), height(vx_e), St { to: vx_p.1, ..s_fig(vx_s) }, spec).0); } }\n"))
TA="label_of(args_of(kids(kids(elem.el())[0]))[0])"
PL="plain(elem.el(), spec) && kind_of(elem.el()) == ItemEnv"
def at(t): return f"({t}.len() - vx_it.rest().len()) as nat"
def on(t): return f"vx_it.rest().len() <= {t}.len() && vx_it.rest() =~= {t}.skip({t}.len() - vx_it.rest().len())"
AL="columns("+TA+", "+TA+".len())"
LN="lines("+TA+", "+TA+".len())"
o.append(fn("convert_env_table", 1, opt=" pass=format", tx=False, hide=True, kind="ItemEnv", clean=False, req=[((15,16),"!is_list(env_kind)")], ens=ENS("IsTable")+["[C14]        r is Ok && "+PL+" && env_kind == LaTeXEnv::Table ==> final(f)@ =~= old(f)@ + tab_out(elem.el(), typst_name@, st(*old(self)), spec).0 && to(*final(self)) == tab_out(elem.el(), typst_name@, st(*old(self)), spec).1,"], body=
 "@start\n[C15] proof { rule_lits(); }\n[C14] broadcast use els_idx;\n"
 +simple(0,frame=False,extra="        room(index, vx_it.rest().len()),\n"
   "[C14]        "+PL+" ==> "+on(TA)+" && alignments@ =~= columns("+TA+", "+at(TA)+") && nats(vlines@) =~= lines("+TA+", "+at(TA)+") && index == columns("+TA+", "+at(TA)+").len(),\n")
 +simple(1,extra="[C14]        to(*self) == to(vx_c1), "+PL+" ==> "+on(AL)+" && f@ =~= vx_f1 + aligned("+AL+", "+at(AL)+"),\n").replace("@loop 1","[C14] let ghost vx_f1 = f@;\n@loop 1")
 +simple(2,extra="[C14]        to(*self) == to(vx_c2), "+PL+" ==> vx_it.rest().len() <= "+LN+".len() && nats(vx_it.rest()) =~= "+LN+".skip("+LN+".len() - vx_it.rest().len()) && f@ =~= vx_f2 + lined("+LN+", "+at(LN)+"),\n").replace("@loop 2","[C14] let ghost vx_f2 = f@;\n@loopstart 2\n[C14] proof { if vx_it.rest().len() > 0 && "+PL+" { assert(nats(vx_it.rest())[0] == "+LN+"["+LN+".len() - vx_it.rest().len()]); assert(nats(vx_it.rest().skip(1)) =~= nats(vx_it.rest()).skip(1)); } }\n@loop 2")
 +lp(3, cl=TD, tx="tab")
 +"@end\n[C14] proof { if vx_ret is Ok && "+PL+" { let vx_e = elem.el(); let vx_t = "+TA+"; let vx_a = "+AL+"; let vx_v = "+LN+"; tab_text(old(f)@, typst_name@, \"columns: \"@ + dec(vx_a.len()) + \",\\n\"@, aligned(vx_a, vx_a.len()), lined(vx_v, vx_v.len()), tab(kids(vx_e), kids(vx_e).len(), height(vx_e), s_tab(st(*old(self))), spec).0); } }\n"))
o.append(r"""@@ fn conv Converter::new ret=r
@spec
    ensures
        r.mode == mode, r.env == LaTeXEnv::None, r.indent == 0,
[C14]        st(r) == begin_st(mode),
@@ text
/// where a conversion begins: blanks at the start are dropped
pub open spec fn begin_st(mode: LaTeXMode) -> St { St { mode, env: LaTeXEnv::None, indent: 0, to: To { skip: true, label: None } } }
// ---- trusted: how `Display` and errors are passed on
#[verifier::external_body]
pub struct ErrCell { x: u8 }
impl ErrCell {
    #[verifier::external_body]
    pub fn report(&self, e: ConvertError) { unimplemented!() }
    #[verifier::external_body]
    pub fn text(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    pub fn new(s: String) -> (r: ErrCell) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: ErrCell) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_fmt_error() -> (r: FmtError) { unimplemented!() }
/// a formatter that writes behind o
#[verifier::external_body]
pub fn vx_formatter(o: &String) -> (r: Fmt)
    ensures r@ == o@,
{ unimplemented!() }
/// what the formatter wrote stands in o
#[verifier::external_body]
pub fn vx_written(o: &mut String, f: Fmt)
    ensures final(o)@ == f@,
{ unimplemented!() }
impl Clone for LatexSyntaxElem {
    #[verifier::external_body]
    fn clone(&self) -> (r: LatexSyntaxElem)
        ensures r == *self,
    { unimplemented!() }
}
impl Clone for CommandSpec {
    #[verifier::external_body]
    fn clone(&self) -> (r: CommandSpec)
        ensures r == *self,
    { unimplemented!() }
}
pub uninterp spec fn default_spec() -> CommandSpec;
#[verifier::external_body]
pub fn vx_default_spec() -> (r: CommandSpec)
    ensures r == default_spec(),
{ unimplemented!() }
/// the parser, with or without macros: what it builds is well-shaped (C06)
#[verifier::external_body]
pub struct VxParse { x: u8 }
impl VxParse {
    pub uninterp spec fn tree(&self, input: Seq<char>, cfg: CommandSpec) -> Elem;
    #[verifier::external_body]
    pub fn run(&self, input: &str, cfg: CommandSpec) -> (r: SyntaxNode)
        ensures r.el() == self.tree(input@, cfg), wf(r.el(), &cfg), 2 * height(r.el()) <= usize::MAX,
    { unimplemented!() }
}
pub uninterp spec fn the_parser(macros: bool) -> VxParse;
#[verifier::external_body]
pub fn vx_parser(macros: bool) -> (r: VxParse)
    ensures r == the_parser(macros),
{ unimplemented!() }
pub open spec fn given(spec: Option<CommandSpec>) -> CommandSpec { match spec { Some(s) => s, None => default_spec() } }
[C14] /// r is the text of the tree that p builds of the input
[C14] pub open spec fn converted(r: Result<String, String>, p: VxParse, input: Seq<char>, mode: LaTeXMode, spec: Option<CommandSpec>) -> bool {
[C14]     r is Ok ==> r->Ok_0@ == txt(p.tree(input, given(spec)), begin_st(mode), &given(spec)).0
[C14] }
[C15] /// if the tree that p builds of the input has something to report, then r is an error
[C15] pub open spec fn converted(r: Result<String, String>, p: VxParse, input: Seq<char>, mode: LaTeXMode, spec: Option<CommandSpec>) -> bool {
[C15]     r is Ok ==> clean(p.tree(input, given(spec)), &given(spec), false)
[C15] }
[C13,C16] pub open spec fn converted(r: Result<String, String>, p: VxParse, input: Seq<char>, mode: LaTeXMode, spec: Option<CommandSpec>) -> bool { true }
@@ item conv struct TypstRepr
@@ fn conv TypstRepr::fmt ret=r
@impl impl TypstRepr
[C13,C14,C15] @attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires wf(self.elem.el(), &self.spec), 2 * height(self.elem.el()) <= usize::MAX,
    ensures
[C14]        r is Ok ==> final(f)@ == old(f)@ + txt(self.elem.el(), begin_st(self.mode), &self.spec).0,
[C15]        r is Ok ==> clean(self.elem.el(), &self.spec, false),
        true,
@start
[C14] hide(txt);
[C14] proof { wf_plain(self.elem.el(), &self.spec); }
@@ fn conv convert_inner ret=r
@sig fn(input: &str, spec: CommandSpec) -> SyntaxNode ~> VxParse
[C13,C14,C15] @attr #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures converted(r, do_parse, input@, mode, spec),
@start
[C14] hide(txt);
let ghost vx_spec0 = spec;
@@ fn lib convert_text ret=r
[C13,C14,C15] @attr #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures converted(r, the_parser(true), input@, LaTeXMode::Text, spec),
@@ fn lib convert_math ret=r
[C13,C14,C15] @attr #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures converted(r, the_parser(true), input@, LaTeXMode::Math, spec),
@@ fn lib convert_math_no_macro ret=r
[C13,C14,C15] @attr #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures converted(r, the_parser(false), input@, LaTeXMode::Math, spec),
""")
p='/verif/units/conv.vu'
s=open(p).read()
m='@@ text\npub open spec fn done('
if m in s: a=s.index(m)
else: a=s.index('@@ fn conv Converter::new')
s=s[:a]+"".join(o)+"@@ text\n} // verus!\nfn main() {}\n"
open(p,'w').write(s)
