#include "cc.h"
#ifndef CHAIN
#define CHAIN 3
#endif
enum { LEAVES = 33 };
static void decide(Spec& s, const Node* n, const Type& type, int module, bool ambiguity)
{
    const Module& m = s.tree.modules[module];
    std::vector<RTag> tags = tags_of(*n, s.env), first = first_tags(*n, s.env);
    bool bad = ambiguity && tags.empty() && has_duplicate(first); // the compiler looks at the CHOICE itself
    TaggingInfo info;
    bool thrown = false;
    try { info = identifier(type, m, s.tree); }
    catch (const std::runtime_error&) { thrown = true; }
    if (thrown)
    {
        vf_cover("refused");
        vf_check(ambiguity && ambiguous(*n, s.env), "a type is refused only if two alternatives of a CHOICE start alike");
        return;
    }
    vf_check(!bad, "a CHOICE with two alternatives which start alike is refused");
    std::vector<Identifier> outer = outer_identifiers(type, m, s.tree);
    vf_check(are(outer, first), "outer identifiers are the ones the encodings start with");
    if (tags.empty())
    {
        vf_cover("untagged choice");
        vf_check(!info.outer_tag && are(info.choice_ids, first), "identifiers of an untagged CHOICE are those of its alternatives");
        return;
    }
    bool is_choice = false;
    for (const Node* p = n; !is_choice && p->kind != Node::LEAF; p = p->child[0]) is_choice = p->kind == Node::CHOICE;
    size_t headers = tags.size();
    if (vf_known("three-explicit-tags-identifier", headers > 2)) return;
    vf_check(info.choice_ids.empty(), "a tagged type has no identifiers of alternatives");
    if (headers == 1)
    {
        vf_cover("one tag");
        vf_check(!info.outer_tag && is(info.inner_tag, tags[0]), "the only tag is the prescribed one");
    }
    else
    {
        vf_cover("two tags");
        vf_check(headers == 2 && info.outer_tag && is(*info.outer_tag, tags[0]) && is(info.inner_tag, tags[1]), "both tags are the prescribed ones");
    }
    vf_check(are(info.outer_tags(), first), "the outermost identifier is the first tag");
}
// every base type, alone and under one tag
extern "C" void vf_ids_leaf()
{
    Spec s;
    Node *l, *n;
    int which = int(vf_pick(0, LEAVES - 1, "base type"));
    Type t = s.leaf(l, 0, which);
    n = l;
    if (vf_pick(0, 1, "tagged") != 0) t = s.tagged(n, 0, l, t, false);
    decide(s, n, t, 0, false);
}
// tags and references around a base type or a CHOICE
extern "C" void vf_ids_chain()
{
    Spec s;
    int at = int(vf_pick(0, 1, "module of the innermost type"));
    Node *n, *a, *b;
    Type t;
    if (vf_pick(0, 1, "choice") != 0)
    {
        Type x = s.leaf(a, at, 7), y = s.leaf(b, at, 11);
        t = s.choice(n, at, {a, b}, {x, y});
    }
    else t = s.leaf(n, at, 14);
    int len = int(vf_pick(0, CHAIN, "length"));
    for (int i = 0; i < len; i++)
    {
        Node* in = n;
        if (vf_pick(0, 1, "reference") != 0)
        {
            int from = int(vf_pick(0, 1, "referring module"));
            t = s.ref(n, from, at, in, t, true);
            at = from;
        }
        else t = s.tagged(n, at, in, t, false);
    }
    decide(s, n, t, at, true);
}
// alternatives: base types, tagged types, references, nested choices
static Type alternative(Spec& s, Node*& n, int at, int depth)
{
    Node *a, *b;
    switch (vf_pick(0, depth ? 4 : 3, "alternative"))
    {
    case 0: return s.leaf(n, at, 7);
    case 1: return s.leaf(n, at, 11);
    case 2: { Type t = s.leaf(a, at, 1); return s.tagged(n, at, a, t, true); }
    case 3: { int w = int(vf_pick(0, 1, "referred module")); Type t = s.leaf(a, w, 1); t = s.tagged(b, w, a, t, true); return s.ref(n, at, w, b, t); }
    default:
    {
        int w = int(vf_pick(0, 1, "module of the inner choice"));
        Type x = s.leaf(a, w, 7);
        Node* c;
        Type y = s.leaf(c, w, 1);
        if (vf_pick(0, 1, "tagged") != 0) { Node* d = c; y = s.tagged(c, w, d, y, true); }
        Type t = s.choice(b, w, {a, c}, {x, y});
        if (w == at && vf_pick(0, 1, "direct") != 0) { n = b; return t; }
        Type r = s.ref(n, at, w, b, t);
        if (vf_pick(0, 1, "tagged choice") != 0) { Node* d = n; r = s.tagged(n, at, d, r, true); }
        return r;
    }
    }
}
extern "C" void vf_ids_choice()
{
    Spec s;
    int k = int(vf_pick(1, 2, "alternatives"));
    std::vector<Node*> ns(k);
    std::vector<Type>  ts;
#ifdef ALLDEEP
    int deep = -1;
#else
    int deep = int(vf_pick(0, k - 1, "which may be a choice"));
#endif
    for (int i = 0; i < k; i++) ts.push_back(alternative(s, ns[i], 0, deep < 0 || deep == i));
    Node* n;
    Type  t = s.choice(n, 0, ns, ts);
    decide(s, n, t, 0, true);
}
extern "C" void vf_ids_choice3()
{
    Spec s;
    std::vector<Node*> ns(3);
    std::vector<Type>  ts;
    for (int i = 0; i < 3; i++) ts.push_back(alternative(s, ns[i], 0, 0));
    Node* n;
    Type  t = s.choice(n, 0, ns, ts);
    decide(s, n, t, 0, true);
}
// components under automatic tagging
extern "C" void vf_ids_automatic()
{
    Spec s;
    Node* n;
    Type  t = alternative(s, n, 0, 1);
    uint64_t index = vf_range(0, 1000000, "component index");
    TaggingInfo info;
    try { info = automatic_identifier(t, index, s.tree.modules[0], s.tree); }
    catch (const std::runtime_error&) { vf_check(ambiguous(*n, s.env), "refused only if ambiguous"); return; }
    std::vector<RTag> tags = tags_of(*n, s.env);
    RTag a{2, int64_t(index)};
    vf_check(info.choice_ids.empty(), "an automatic tag hides the alternatives");
    if (tags.size() <= 1) { vf_cover("replaced or around a choice"); vf_check(!info.outer_tag && is(info.inner_tag, a), "automatic tag"); }
    else { vf_cover("explicit tag kept below"); vf_check(info.outer_tag && is(*info.outer_tag, a) && is(info.inner_tag, tags[1]), "automatic tag in place of the outer tag"); }
}
// the base type behind tags and references, and the module it is written in
static const Node& base_of(const Node& n) { return n.kind == Node::TAGGED || n.kind == Node::REF ? base_of(*n.child[0]) : n; }
static const Type& strip(const Type& t) { return is_prefixed(t) ? strip(absl::get<PrefixedType>(absl::get<BuiltinType>(t)).tagged_type->type) : t; }
extern "C" void vf_resolve()
{
    Spec s;
    int   at = int(vf_pick(0, 1, "module of the base type"));
    Node *n, *a, *b;
    Type  t;
    int   what = int(vf_pick(0, 2, "base"));
    if (what == 0) { Type x = s.leaf(a, at, 7), y = s.leaf(b, at, 11); t = s.choice(n, at, {a, b}, {x, y}); }
    else t = s.leaf(n, at, what == 1 ? 14 : 3);
    int home = at, len = int(vf_pick(1, CHAIN + 1, "length"));
    for (int i = 0; i < len; i++)
    {
        Node* in = n;
        if (vf_pick(0, 1, "reference") != 0)
        {
            int from = int(vf_pick(0, 1, "referring module"));
            t = s.ref(n, from, at, in, t, true);
            at = from;
        }
        else t = s.tagged(n, at, in, t, true);
    }
    NamedTypeAndModule r = resolve_type_and_module(s.tree, s.tree.modules[at].module_reference, NamedType{"x", t});
    const Type& got = strip(r.type.type);
    vf_check(what == 0 ? is_choice(got) : what == 1 ? is_sequence(got) : is_enumerated(got), "the base type is found");
    vf_check(r.module.module_reference == s.tree.modules[home].module_reference, "the base type is found in the module it is written in");
    vf_check(is_generated(t) == (!is_defined(strip(t)) && what != 2) && is_generated(got) == (what != 2), "structures are told from other types");
    vf_cover("resolved");
}
// the C++ name of an identifier denotes its classes and numbers
static std::string text_of(const RTag& t)
{
    static const char* const cls[4] = {"uni", "app", "ctx", "pri"};
    return std::string("Id<") + cls[t.cls] + ", " + std::to_string(t.num) + ">";
}
static const char* const univ[31] = {"reserved", "boolean", "integer", "bit_string", "octet_string", "null", "object_identifier", "object_descriptor", "instance_of", "real", "enumerated",
    "embedded_pdv", "utf8_string", "relative_oid", nullptr, nullptr, "sequence", "set", "numeric_string", "printable_string", "teletex_string", "videotex_string", "ia5_string", "utc_time",
    "generalized_time", "graphic_string", "visible_string", "general_string", "universal_string", "character_string", "bmp_string"};
extern "C" void vf_name()
{
    int      cls = int(vf_pick(0, 3, "class"));
    RTag     a{cls, int64_t(vf_range(0, 0x7fffffff, "number"))};
    int      u = int(vf_pick(1, 30, "universal"));
    vf_assume(univ[u] != nullptr);
    Identifier ia(static_cast<Class>(a.cls), a.num), iu(static_cast<UniversalTag>(u));
    std::string ta = text_of(a), tu = std::string("ExplicitId<UniversalTag::") + univ[u] + ">";
    int shape = int(vf_pick(0, 3, "shape"));
    TaggingInfo i;
    i.is_default_tagged = false;
    std::string want;
    if (shape == 0) { i.inner_tag = ia; want = ta; }
    else if (shape == 1) { i.inner_tag = iu; want = tu; }
    else if (shape == 2) { i.outer_tag = ia; i.inner_tag = iu; want = "DoubleId<" + ta + ", " + tu + ">"; }
    else { i.choice_ids = {iu, ia, iu}; want = "ChoiceId<" + tu + ", " + ta + ", " + tu + ">"; }
    vf_check(i.name() == want, "the C++ name of the identifier");
    vf_cover("named");
}
