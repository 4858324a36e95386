// Ordering of assignments. The names referred to are symbolic, so every dependency graph over the shapes is covered.
#include "fast_ber/compiler/CompilerTypes.hpp"
#include "fast_ber/compiler/ReorderAssignments.hpp"
#include "vf.h"
#include <stdexcept>
#include <string>
#include <vector>
#ifndef FORMMEMBERS
#define FORMMEMBERS 1
#endif
#ifndef OTHERS
#define OTHERS 2
#endif
#ifndef NASSIGN
#define NASSIGN 3
#endif
enum Kind { LEAF, ALIAS, TAGGED, LIST, SETLIST, SEQ, SET, CHO, VALUE };
enum Form { PLAIN, OPTIONAL_, DEFAULT_, TAG, LISTOF, INNER_CHOICE, INNER_SEQ, INNER_OPT };
struct Edge
{
    int  from;
    char to;       // a name in this module, or the missing one
    bool external; // of another module: not ordered here
    int  member;   // index of the component or alternative, -1 for the type itself
    Form form;
    bool value;    // a named value
};
struct World
{
    int               n = 0;
    Kind              kind[4];
    std::vector<Edge> edges;
    std::vector<Assignment> in;
    Asn1Tree          tree;
    bool              externals = false, values = false;
    int               forms = 0;
};
static std::string name_of(int i, Kind k) { return std::string(1, char((k == VALUE ? 'a' : 'A') + i)); }
static Type reference(World& w, int from, int member, Form form)
{
    Edge e{from, char(vf_range('A', 'A' + w.n, "type referred to")), false, member, form, false};
    DefinedType d;
    d.type_reference.assign(1, e.to);
    if (w.externals)
    {
        int x = int(vf_pick(0, 2, "module written"));
        if (x) d.module_reference = std::string(x == 1 ? "M" : "O");
        e.external = x == 2;
    }
    w.edges.push_back(e);
    return d;
}
static Value value_reference(World& w, int from, int member)
{
    Edge e{from, char(vf_range('a', 'a' + w.n, "value referred to")), false, member, DEFAULT_, true};
    w.edges.push_back(e);
    DefinedValue v;
    v.reference.assign(1, e.to);
    return Value{v};
}
static ComponentType component(const char* name, const Type& t, bool optional)
{
    return ComponentType{NamedType{name, t}, optional, {}, {}, StorageMode::static_};
}
static Type tagged(const Type& t) { return BuiltinType{PrefixedType(TaggedType{Tag{Class::context_specific, 3}, TaggingMode::implicit, t})}; }
static Type sequence_of(const Type& t)
{
    SequenceOfType s;
    s.has_name = false;
    s.type.reset(new Type(t));
    s.storage = StorageMode::small_buffer_optimised;
    return BuiltinType{s};
}
static Type set_of(const Type& t)
{
    SetOfType s;
    s.has_name = true;
    s.named_type.reset(new NamedType{"x", t});
    s.storage = StorageMode::small_buffer_optimised;
    return BuiltinType{s};
}
static Type choice(const std::vector<Type>& ts)
{
    ChoiceType c;
    c.storage = StorageMode::static_;
    for (size_t i = 0; i < ts.size(); i++) c.choices.push_back(NamedType{std::string(1, char('x' + i)), ts[i]});
    return BuiltinType{c};
}
static Type inner(World& w, int i, int m, Form f)
{
    switch (f)
    {
    case TAG: return tagged(reference(w, i, m, f));
    case LISTOF: return sequence_of(reference(w, i, m, f));
    case INNER_CHOICE: return choice({reference(w, i, m, f), Type(BuiltinType{NullType{}})});
    case INNER_SEQ: case INNER_OPT:
    {
        SequenceType s;
        s.components.push_back(component("z", reference(w, i, m, f), f == INNER_OPT));
        return BuiltinType{s};
    }
    default: return reference(w, i, m, f);
    }
}
static Type make(World& w, int i, int members)
{
    switch (w.kind[i])
    {
    case ALIAS: return reference(w, i, -1, PLAIN);
    case TAGGED: return tagged(reference(w, i, -1, TAG));
    case LIST: return sequence_of(reference(w, i, -1, LISTOF));
    case SETLIST: return set_of(reference(w, i, -1, LISTOF));
    case CHO:
    {
        std::vector<Type> ts;
        for (int m = 0; m < members; m++)
        {
            static const Form forms[] = {PLAIN, LISTOF, TAG, INNER_CHOICE, INNER_SEQ, INNER_OPT};
            ts.push_back(inner(w, i, m, forms[w.forms == 0 ? 0 : vf_pick(0, w.forms == 1 ? 2 : 5, "form")]));
        }
        return choice(ts);
    }
    case SEQ: case SET:
    {
        ComponentTypeList cs;
        for (int m = 0; m < members; m++)
        {
            static const Form forms[] = {PLAIN, OPTIONAL_, LISTOF, TAG, INNER_CHOICE, INNER_SEQ, INNER_OPT};
            Form f = forms[vf_pick(0, w.forms == 0 ? 1 : w.forms == 1 ? 3 : 6, "form")];
            bool optional = f == OPTIONAL_ || (w.forms == 2 && f >= LISTOF && vf_pick(0, 1, "optional") != 0);
            ComponentType c = component(m ? "y" : "x", inner(w, i, m, f), optional);
            if (w.values && !optional && vf_pick(0, 1, "default") != 0) c.default_value = value_reference(w, i, m);
            cs.push_back(c);
        }
        if (w.kind[i] == SET) { SetType s; s.components = cs; return BuiltinType{s}; }
        SequenceType s;
        s.components = cs;
        return BuiltinType{s};
    }
    default: return BuiltinType{IntegerType{}};
    }
}
static const Type& strip(const Type& t) { return is_prefixed(t) ? strip(absl::get<PrefixedType>(absl::get<BuiltinType>(t)).tagged_type->type) : t; }
static bool on_heap(const Type& t)
{
    if (is_choice(t)) return absl::get<ChoiceType>(absl::get<BuiltinType>(t)).storage == StorageMode::dynamic;
    if (is_sequence_of(t)) return absl::get<SequenceOfType>(absl::get<BuiltinType>(t)).storage == StorageMode::dynamic;
    if (is_set_of(t)) return absl::get<SetOfType>(absl::get<BuiltinType>(t)).storage == StorageMode::dynamic;
    return false;
}
static const ComponentTypeList& components(const Type& t)
{
    return is_set(t) ? absl::get<SetType>(absl::get<BuiltinType>(t)).components : absl::get<SequenceType>(absl::get<BuiltinType>(t)).components;
}
static const Type& member(const Type& t, int m)
{
    return is_choice(t) ? absl::get<ChoiceType>(absl::get<BuiltinType>(t)).choices[m].type : components(t)[m].named_type.type;
}
// is the thing referred to kept behind a pointer in the type as it was put out?
static bool behind_pointer(const Edge& e, const Type& t)
{
    if (e.member < 0) return on_heap(t);
    const Type& mt = strip(member(t, e.member));
    bool outer = is_choice(t) ? on_heap(t) : components(t)[e.member].optional_storage == StorageMode::dynamic;
    switch (e.form)
    {
    case LISTOF: return outer || on_heap(mt);
    case INNER_CHOICE: return on_heap(mt); // defined inside of the enclosing structure
    case INNER_SEQ: return false;
    case INNER_OPT: return components(mt)[0].optional_storage == StorageMode::dynamic;
    default: return outer;
    }
}
static bool breakable(const World& w, const Edge& e, bool optional)
{
    if (e.value) return false;
    switch (w.kind[e.from])
    {
    case LIST: case SETLIST: return true;
    case CHO: return e.form != INNER_SEQ;
    case SEQ: case SET: return optional && e.form != INNER_SEQ;
    default: return false;
    }
}
static void closure(const World& w, bool r[4][4])
{
    for (int m = 0; m < w.n; m++)
        for (int i = 0; i < w.n; i++)
            for (int k = 0; k < w.n; k++) r[i][k] |= r[i][m] & r[m][k];
}
static bool denotes(const World& w, const Edge& e, int k) { return !e.external & ((w.kind[k] == VALUE) == e.value) & (e.to == (e.value ? 'a' : 'A') + k); }
static std::string text(const Type& t)
{
    if (is_defined(t)) { const DefinedType& d = absl::get<DefinedType>(t); return (d.module_reference ? *d.module_reference + "." : std::string()) + d.type_reference; }
    if (is_prefixed(t)) return "[" + text(strip(t));
    if (is_choice(t)) return "|" + text(absl::get<ChoiceType>(absl::get<BuiltinType>(t)).choices[0].type);
    if (is_sequence_of(t)) return "*" + text(*absl::get<SequenceOfType>(absl::get<BuiltinType>(t)).type);
    if (is_sequence(t)) return "&" + text(components(t)[0].named_type.type);
    return "?";
}
static void decide(World& w)
{
    const std::vector<Assignment> before = w.in;
    bool optional[4][3] = {};
    for (int i = 0; i < w.n; i++)
        if (w.kind[i] == SEQ || w.kind[i] == SET)
        {
            const ComponentTypeList& cs = components(absl::get<TypeAssignment>(before[i].specific).type);
            for (size_t m = 0; m < cs.size(); m++) optional[i][m] = cs[m].is_optional;
        }
    w.tree.modules[0].assignments = before;
    const Module module = w.tree.modules[0];
    std::vector<Assignment> out;
    bool refused = false;
    try { out = reorder_assignments(w.in, w.tree, module); }
    catch (const std::runtime_error&) { refused = true; }
    bool reach[4][4] = {}, stuck[4][4] = {}, missing = false;
    for (const Edge& e : w.edges)
    {
        bool found = false;
        for (int k = 0; k < w.n; k++)
        {
            bool d = denotes(w, e, k);
            reach[e.from][k] |= d;
            bool b = breakable(w, e, e.member >= 0 && optional[e.from][e.member]);
            if (!b) stuck[e.from][k] |= d;
            found |= d;
        }
        missing |= !found & !e.external;
    }
    closure(w, reach);
    bool byvalue = false;
    closure(w, stuck);
    for (int i = 0; i < w.n; i++) byvalue |= stuck[i][i];
    if (refused)
    {
        vf_cover("refused");
        vf_check(missing | byvalue, "refused only if something is undefined or contains itself by value");
        return;
    }
    vf_check(!missing, "a reference to an undefined name is reported");
    vf_check(!byvalue, "a type which contains itself by value is reported");
    vf_check(int(out.size()) == w.n, "as many assignments as before");
    if (int(out.size()) != w.n) return;
    int at[4];
    for (int i = 0; i < w.n; i++)
    {
        at[i] = -1;
        for (int k = 0; k < w.n; k++)
            if (out[k].name == before[i].name)
            {
                vf_check(at[i] < 0, "no assignment appears twice");
                at[i] = k;
            }
        vf_check(at[i] >= 0, "every assignment appears");
        if (at[i] < 0) return;
        vf_check(out[at[i]].specific.index() == before[i].specific.index(), "types stay types, values stay values");
    }
    for (const Edge& e : w.edges)
    {
        if (w.kind[e.from] == VALUE) { for (int k = 0; k < w.n; k++) vf_check(!denotes(w, e, k) | (at[k] < at[e.from]), "a value comes after what it refers to"); continue; }
        const Type& t = absl::get<TypeAssignment>(out[at[e.from]].specific).type;
        const Type& b = absl::get<TypeAssignment>(before[e.from].specific).type;
        if (e.member >= 0)
        {
            vf_check(text(member(t, e.member)) == text(member(b, e.member)), "members are kept as they were");
            if (is_sequence(t) || is_set(t)) vf_check(components(t)[e.member].is_optional == components(b)[e.member].is_optional && bool(components(t)[e.member].default_value) == bool(components(b)[e.member].default_value), "presence of members is kept");
        }
        bool pointer = !e.value && behind_pointer(e, t);
        if (pointer) vf_cover("behind a pointer");
        for (int k = 0; k < w.n; k++)
        {
            bool d = denotes(w, e, k);
            // types that take no part in a recursion come first however they are stored
            bool in_cycle = reach[k][e.from];
            if (pointer)
            {
                vf_check(!d | in_cycle | (at[k] < at[e.from]), "a type comes after those it refers to outside of a recursion");
                if ((w.kind[k] == LIST || w.kind[k] == SETLIST) && vf_known("heap-reference-to-list", d & in_cycle & (at[k] >= at[e.from]))) continue;
                if (w.kind[k] == LIST || w.kind[k] == SETLIST) vf_check(!d | (at[k] < at[e.from]), "elements of a list type are named after the list");
            }
            else vf_check(!d | (at[k] < at[e.from]), "a type comes after those it contains by value");
        }
    }
    // heap storage is for recursive types only
    for (int i = 0; i < w.n; i++)
    {
        if (w.kind[i] == VALUE) continue;
        const Type& t = absl::get<TypeAssignment>(out[at[i]].specific).type;
        bool heap = on_heap(t);
        if (is_choice(t)) for (const NamedType& a : absl::get<ChoiceType>(absl::get<BuiltinType>(t)).choices) heap |= on_heap(strip(a.type));
        if (is_sequence(t) || is_set(t)) for (const ComponentType& c : components(t)) heap |= c.optional_storage == StorageMode::dynamic || on_heap(strip(c.named_type.type));
        vf_check(!heap | reach[i][i], "only recursive types are put on the heap");
    }
    vf_cover("ordered");
}
static void start(World& w, int n)
{
    w.n = n;
    w.tree.modules.resize(1);
    w.tree.modules[0].module_reference = "M";
    w.tree.modules[0].tagging_default  = TaggingMode::automatic;
}
static void add(World& w, int i, Kind k, int members)
{
    w.kind[i] = k;
    if (k == VALUE)
    {
        Value v;
        if (vf_pick(0, 1, "refers to a value") != 0) v = value_reference(w, i, -1);
        else v.value_selection = int64_t(vf_u64("number"));
        w.in.push_back(Assignment{name_of(i, k), ValueAssignment{w.kind[0] == ALIAS && i ? reference(w, i, -1, PLAIN) : Type(BuiltinType{IntegerType{}}), v}, {}, {}});
    }
    else w.in.push_back(Assignment{name_of(i, k), TypeAssignment{make(w, i, members)}, {}, {}});
}
// one reference each: every functional graph
extern "C" void vf_graph1()
{
    World w;
    start(w, int(vf_pick(1, NASSIGN, "assignments")));
    for (int i = 0; i < w.n; i++) add(w, i, static_cast<Kind>(vf_pick(LEAF, CHO, "kind")), 1);
    decide(w);
}
// two references in one of them
extern "C" void vf_graph2()
{
    World w;
    start(w, NASSIGN);
    int two = int(vf_pick(0, w.n - 1, "the one with two members"));
    for (int i = 0; i < w.n; i++)
    {
        if (i == two) add(w, i, static_cast<Kind>(vf_pick(SEQ, CHO, "structure")), 2);
        else
        {
            static const Kind kinds[] = {LEAF, LIST, SEQ, ALIAS, CHO};
            add(w, i, kinds[vf_pick(0, OTHERS, "kind")], 1);
        }
    }
    decide(w);
}
// members of all forms
extern "C" void vf_forms()
{
    World w;
    start(w, 2);
    w.forms = 2;
    add(w, 0, static_cast<Kind>(vf_pick(SEQ, CHO, "structure")), FORMMEMBERS);
    w.forms = 0;
    static const Kind kinds[] = {LEAF, ALIAS, LIST, SEQ, CHO};
    add(w, 1, kinds[vf_pick(0, 4, "kind")], 1);
    decide(w);
}
// names with a module in front of them
extern "C" void vf_external()
{
    World w;
    start(w, 2);
    w.externals = true;
    for (int i = 0; i < w.n; i++) add(w, i, static_cast<Kind>(vf_pick(LEAF, CHO, "kind")), i == 0 ? 2 : 1);
    decide(w);
}
// named values: defaults and values of other values
extern "C" void vf_values()
{
    World w;
    start(w, 3);
    w.values = true;
    static const Kind kinds[] = {VALUE, ALIAS, SEQ, SET, LEAF};
    for (int i = 0; i < w.n; i++) add(w, i, kinds[vf_pick(0, 4, "kind")], 1);
    decide(w);
}
