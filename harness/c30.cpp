// Specifications that are not well formed are reported, well-formed ones are not
#include "cc.h"
#include "fast_ber/compiler/ReorderAssignments.hpp"
#include "fast_ber/compiler/TypeAsString.hpp"
#ifndef NCOMPONENTS
#define NCOMPONENTS 3
#endif
#ifndef NNAMES
#define NNAMES 4
#endif
// ---- duplicated names: the names themselves are symbolic
extern "C" void vf_names()
{
    int n = int(vf_pick(0, NNAMES, "assignments"));
    std::vector<Assignment> as;
    char name[NNAMES][2];
    for (int i = 0; i < n; i++)
    {
        name[i][0] = char(vf_range('A', 'Z', "name"));
        name[i][1] = char(vf_range('a', 'z', "name"));
        if (vf_pick(0, 1, "value") != 0)
        {
            Value v;
            v.value_selection = int64_t(i);
            name[i][0] = char(name[i][0] + 32);
            as.push_back(Assignment{std::string(name[i], 2), ValueAssignment{BuiltinType{IntegerType{}}, v}, {}, {}});
        }
        else as.push_back(Assignment{std::string(name[i], 2), TypeAssignment{BuiltinType{NullType{}}}, {}, {}});
    }
    bool twice = false, refused = false;
    for (int i = 0; i < n; i++)
        for (int k = 0; k < i; k++) twice |= (name[i][0] == name[k][0]) & (name[i][1] == name[k][1]);
    try { check_duplicated_names(as, "M"); }
    catch (const std::runtime_error&) { refused = true; }
    vf_check(refused == twice, "a module is refused exactly if two of its assignments have one name");
    if (refused) vf_cover("duplicated");
    else vf_cover("distinct");
}
// ---- ambiguous components
static Type part(Spec& s, Node*& n, int at, int kinds)
{
    Node *a, *b, *c, *d;
    switch (vf_pick(0, kinds, "component type"))
    {
    case 0: return s.leaf(n, at, 7);
    case 1: { Type t = s.leaf(a, at, 1); t = s.tagged(n, at, a, t, true); vf_assume(n->tag.num < 10); return t; }
    case 2: return s.leaf(n, at, 11);
    case 3: { Type t = s.leaf(a, 1, 1); t = s.tagged(b, 1, a, t, true); vf_assume(b->tag.num < 10); return s.ref(n, at, 1, b, t); }
    default:
    {
        Type x = s.leaf(a, 1, 7), y = s.leaf(b, 1, 1);
        y = s.tagged(c, 1, b, y, true);
        vf_assume(c->tag.num < 10);
        Type t = s.choice(d, 1, {a, c}, {x, y});
        return s.ref(n, at, 1, d, t);
    }
    }
}
static void components(bool set, int k, int kinds)
{
    Spec s;
    std::vector<Node*> nodes(k);
    ComponentTypeList  cs;
    bool absent[4];
    for (int i = 0; i < k; i++)
    {
        Type t = part(s, nodes[i], 0, kinds);
        int  p = int(vf_pick(0, 1 + (nodes[i]->kind == Node::LEAF), "presence"));
        absent[i] = p != 0;
        cs.push_back(ComponentType{NamedType{std::string(1, char('a' + i)), t}, p == 1, {}, {}, StorageMode::static_});
        if (p == 2) cs.back().default_value = Value{int64_t(5)};
    }
    Type type;
    if (set) { SetType x; x.components = cs; type = BuiltinType{x}; }
    else { SequenceType x; x.components = cs; type = BuiltinType{x}; }
    bool refused = false;
    try { create_type_assignment("Type", type, s.tree.modules[0], s.tree); }
    catch (const std::runtime_error&) { refused = true; }
    bool automatic = s.env.deflt[0] == 2, bad = false, apart = false, inner = false;
    for (Node* n : nodes) { automatic &= n->kind != Node::TAGGED; inner |= ambiguous(*n, s.env); }
    if (!automatic)
        for (int i = 0; i < k; i++)
            for (int j = i + 1; j < k; j++)
            {
                bool meet = true; // can the identifier of j stand where i is expected?
                if (!set) for (int m = i; m < j; m++) meet &= absent[m];
                if (!meet) continue;
                for (const RTag& x : first_tags(*nodes[i], s.env))
                    for (const RTag& y : first_tags(*nodes[j], s.env)) (set || j == i + 1 ? bad : apart) |= same(x, y);
            }
    if (refused)
    {
        vf_cover("refused");
        vf_check(bad | apart | inner, "components are refused only if two of them can be mistaken for each other");
        return;
    }
    vf_cover("accepted");
    if (vf_known("ambiguous-behind-other-optional", !bad & apart)) return;
    vf_check(!(bad | apart), "components which can be mistaken for each other are refused");
}
extern "C" void vf_ambiguous_sequence() { components(false, int(vf_pick(1, 2, "components")), 4); }
extern "C" void vf_ambiguous_sequence3() { components(false, NCOMPONENTS, 1); }
extern "C" void vf_ambiguous_set() { components(true, int(vf_pick(1, 2, "components")), 4); }
extern "C" void vf_ambiguous_set3() { components(true, NCOMPONENTS, 1); }
// ---- references to what does not exist: names are symbolic
extern "C" void vf_undefined()
{
    Asn1Tree tree;
    tree.modules.resize(2);
    char mod[2], as[2][2];
    bool is_a_type[2][2];
    for (int i = 0; i < 2; i++)
    {
        mod[i] = char('M' + i);
        tree.modules[i].module_reference.assign(1, mod[i]);
        tree.modules[i].tagging_default = TaggingMode::explicit_;
        for (int j = 0; j < 2; j++)
        {
            as[i][j] = char('A' + 2 * j + (i && j));
            is_a_type[i][j] = vf_pick(0, 1, "type") != 0;
            Value v;
            v.value_selection = int64_t(1);
            if (is_a_type[i][j]) tree.modules[i].assignments.push_back(Assignment{std::string(1, as[i][j]), TypeAssignment{BuiltinType{IntegerType{}}}, {}, {}});
            else tree.modules[i].assignments.push_back(Assignment{std::string(1, as[i][j]), ValueAssignment{BuiltinType{IntegerType{}}, v}, {}, {}});
        }
    }
    char from = char(vf_range('M', 'O', "module the reference is in")), to = char(vf_range('M', 'O', "module named")), name = char(vf_range('A', 'E', "name"));
    bool qualified = vf_pick(0, 1, "module named") != 0;
    DefinedType d;
    if (qualified) d.module_reference = std::string(1, to);
    d.type_reference.assign(1, name);
    bool found = false;
    char where = qualified ? to : from;
    for (int i = 0; i < 2; i++)
        for (int j = 0; j < 2; j++) found |= (where == mod[i]) & (name == as[i][j]) & is_a_type[i][j];
    bool refused = false, right = false;
    try
    {
        NamedTypeAndModule r = resolve_type_and_module(tree, std::string(1, from), d);
        right = is_integer(r.type.type) && r.type.name[0] == name && r.module.module_reference[0] == where;
    }
    catch (const std::runtime_error&) { refused = true; }
    vf_check(refused == !found, "a reference is refused exactly if it does not name a type");
    if (refused) { vf_cover("refused"); return; }
    vf_cover("found");
    vf_check(right, "the type named is the one found");
}
// ---- CHOICE types which contain themselves
extern "C" void vf_recursive_choice()
{
    Asn1Tree tree;
    tree.modules.resize(1);
    Module& m = tree.modules[0];
    m.module_reference = "M";
    m.tagging_default  = static_cast<TaggingMode>(vf_pick(0, 2, "tagging default"));
    int  n = int(vf_pick(1, 2, "assignments"));
    bool direct[3][3] = {}; // the identifiers of k are among those of i
    struct { char to; bool used; } edge[3] = {};
    std::vector<Assignment> as;
    for (int i = 0; i < n; i++)
    {
        char to = char(vf_range('A', char('A' + n - 1), "reference"));
        DefinedType d;
        d.type_reference.assign(1, to);
        int form = int(vf_pick(0, 4, "form"));
        Type r = d, other = BuiltinType{NullType{}};
        auto tag = [](const Type& t, int k) { return Type(BuiltinType{PrefixedType(TaggedType{Tag{Class::context_specific, k}, TaggingMode::explicit_, t})}); };
        bool automatic = m.tagging_default == TaggingMode::automatic;
        bool through;
        switch (form)
        {
        case 0: as.push_back(Assignment{std::string(1, char('A' + i)), TypeAssignment{r}, {}, {}}); edge[i] = {to, true}; continue;
        case 1: through = !automatic; break;                              // CHOICE {a Ref, b NULL}
        case 2: through = false; r = tag(r, 7); break;                    // CHOICE {a [7] Ref, b NULL}
        case 3: through = true; other = tag(other, 8 + i); break;         // CHOICE {a Ref, b [8] NULL}
        default: through = false; r = BuiltinType{BooleanType{}};         // CHOICE {a BOOLEAN, b NULL}
        }
        if (form != 3) other = tag(other, 8 + i), through |= form == 1;   // a tag is written: no automatic tags
        ChoiceType c;
        c.storage = StorageMode::static_;
        c.choices.push_back(NamedType{"x", r});
        c.choices.push_back(NamedType{"y", other});
        as.push_back(Assignment{std::string(1, char('A' + i)), TypeAssignment{BuiltinType{c}}, {}, {}});
        edge[i] = {to, through};
    }
    for (int i = 0; i < n; i++)
        for (int k = 0; k < n; k++) direct[i][k] = edge[i].used & (edge[i].to == 'A' + k);
    for (int q = 0; q < n; q++)
        for (int i = 0; i < n; i++)
            for (int k = 0; k < n; k++) direct[i][k] |= direct[i][q] & direct[q][k];
    bool self = false;
    for (int i = 0; i < n; i++) self |= direct[i][i];
    m.assignments = as;
    bool refused = false;
    try
    {
        m.assignments = reorder_assignments(as, tree, m);
        for (const Assignment& a : m.assignments) identifier(absl::get<TypeAssignment>(a.specific).type, m, tree);
    }
    catch (const std::runtime_error&) { refused = true; }
    vf_check(!self | refused, "a CHOICE which is an alternative of itself without a tag is refused");
    vf_check(self | !refused, "no other recursive CHOICE is refused");
    if (refused) vf_cover("refused");
    else vf_cover("accepted");
}
