// Symbolic ASN.1 types for the checks of the compiler, with an independent description next to each.
#pragma once
#include "fast_ber/compiler/CompilerTypes.hpp"
#include "fast_ber/compiler/Identifier.hpp"
#include "fast_ber/compiler/ResolveType.hpp"
#include "vf.h"
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
struct RTag { int cls; int64_t num; };
struct Node
{
    enum Kind { LEAF, TAGGED, REF, CHOICE } kind = LEAF;
    int                universal = 0;              // LEAF
    RTag               tag{};                      // TAGGED
    int                mode   = 0;                 // TAGGED: 0 EXPLICIT, 1 IMPLICIT, 2 neither is written
    int                module = 0;                 // where this is written
    std::vector<Node*> child;
};
// ---- X.680 31.2, 25, 29 over the description
struct Env { int deflt[2]; };                      // per module: 0 EXPLICIT, 1 IMPLICIT, 2 AUTOMATIC TAGS
inline const Node& behind_refs(const Node& n) { return n.kind == Node::REF ? behind_refs(*n.child[0]) : n; }
inline std::vector<RTag> tags_of(const Node& n, const Env& e) // outermost first, none for an untagged CHOICE
{
    if (n.kind == Node::REF) return tags_of(*n.child[0], e);
    if (n.kind == Node::LEAF) return {RTag{0, n.universal}};
    if (n.kind == Node::CHOICE) return {};
    std::vector<RTag> t = tags_of(*n.child[0], e);
    bool explicit_ = n.mode == 0 || (n.mode == 2 && e.deflt[n.module] == 0) || t.empty();
    if (explicit_) t.insert(t.begin(), n.tag);
    else t[0] = n.tag;
    return t;
}
inline bool auto_choice(const Node& n, const Env& e)
{
    if (e.deflt[n.module] != 2) return false;
    for (Node* c : n.child)
        if (c->kind == Node::TAGGED) return false;
    return true;
}
inline std::vector<RTag> first_tags(const Node& n, const Env& e) // identifiers an encoding of the type can start with
{
    if (n.kind == Node::REF) return first_tags(*n.child[0], e);
    if (n.kind == Node::LEAF) return {RTag{0, n.universal}};
    if (n.kind == Node::TAGGED) return {n.tag};
    std::vector<RTag> r;
    if (auto_choice(n, e)) { for (size_t i = 0; i < n.child.size(); i++) r.push_back(RTag{2, int64_t(i)}); return r; }
    for (Node* c : n.child)
        for (const RTag& t : first_tags(*c, e)) r.push_back(t);
    return r;
}
inline bool same(const RTag& a, const RTag& b) { return !((uint64_t(a.cls) ^ uint64_t(b.cls)) | (uint64_t(a.num) ^ uint64_t(b.num))); }
inline bool has_duplicate(const std::vector<RTag>& v)
{
    bool d = false;
    for (size_t i = 0; i < v.size(); i++)
        for (size_t j = 0; j < i; j++) d |= same(v[i], v[j]);
    return d;
}
inline bool ambiguous(const Node& n, const Env& e) // some CHOICE at or behind n has two alternatives which start alike
{
    if (n.kind == Node::CHOICE && has_duplicate(first_tags(n, e))) return true;
    for (Node* c : n.child)
        if (ambiguous(*c, e)) return true;
    return false;
}
inline bool is(const Identifier& id, const RTag& t) { return (int(id.class_) == t.cls) & (id.tag_number == t.num); }
inline bool are(const std::vector<Identifier>& ids, const std::vector<RTag>& t)
{
    if (ids.size() != t.size()) return false;
    bool r = true;
    for (size_t i = 0; i < t.size(); i++) r &= is(ids[i], t[i]);
    return r;
}
// ---- the compiler's own tree for a description
struct Spec
{
    Asn1Tree                           tree;
    Env                                env{};
    std::vector<std::unique_ptr<Node>> nodes;
    int                                names = 0;
    Spec()
    {
        tree.modules.resize(2);
        for (int i = 0; i < 2; i++)
        {
            tree.modules[i].module_reference = i ? "Second" : "First";
            env.deflt[i]                     = int(vf_range(0, 2, "tagging default"));
            tree.modules[i].tagging_default  = static_cast<TaggingMode>(env.deflt[i]);
        }
    }
    Node* node(Node::Kind k, int module)
    {
        nodes.emplace_back(new Node);
        nodes.back()->kind = k;
        nodes.back()->module = module;
        return nodes.back().get();
    }
    Type leaf(Node*& n, int module, int which)
    {
        n = node(Node::LEAF, module);
        static const int8_t strings[15] = {0, 30, 27, 25, 22, 26, 18, 19, 20, 20, 28, 12, 21, 26, 29};
        switch (which)
        {
        case 0: n->universal = 3; return BuiltinType{BitStringType{}};
        case 1: n->universal = 1; return BuiltinType{BooleanType{}};
        case 2: n->universal = 11; return BuiltinType{EmbeddedPDVType{}};
        case 3: n->universal = 10; return BuiltinType{EnumeratedType{{}, false}};
        case 4: n->universal = 8; return BuiltinType{ExternalType{}};
        case 5: n->universal = 24; return BuiltinType{GeneralizedTimeType{}};
        case 6: n->universal = 8; return BuiltinType{InstanceOfType{}};
        case 7: n->universal = 2; return BuiltinType{IntegerType{}};
        case 8: n->universal = 5; return BuiltinType{NullType{}};
        case 9: n->universal = 7; return BuiltinType{ObjectDescriptorType{}};
        case 10: n->universal = 6; return BuiltinType{ObjectIdentifierType{}};
        case 11: n->universal = 4; return BuiltinType{OctetStringType{}};
        case 12: n->universal = 9; return BuiltinType{RealType{}};
        case 13: n->universal = 13; return BuiltinType{RelativeOIDType{}};
        case 14: n->universal = 16; return BuiltinType{SequenceType{}};
        case 15: n->universal = 16; return BuiltinType{of<SequenceOfType>()};
        case 16: n->universal = 17; return BuiltinType{SetType{}};
        case 17: n->universal = 17; return BuiltinType{of<SetOfType>()};
        case 18: n->universal = 23; return BuiltinType{UTCTimeType{}};
        default: n->universal = strings[which - 18]; return BuiltinType{static_cast<CharacterStringType>(which - 18)};
        }
    }
    template <typename T>
    static T of()
    {
        T t;
        t.has_name = false;
        t.type.reset(new Type(BuiltinType{NullType{}}));
        return t;
    }
    Type tagged(Node*& n, int module, Node* inner, const Type& type, bool user_classes)
    {
        n = node(Node::TAGGED, module);
        n->child.push_back(inner);
        n->tag.cls = int(vf_range(user_classes ? 1 : 0, 3, "class"));
        n->tag.num = int64_t(vf_range(0, 0x7fffffff, "tag number"));
        n->mode    = int(vf_range(0, 2, "tagging"));
        return BuiltinType{PrefixedType(TaggedType{Tag{static_cast<Class>(n->tag.cls), int(n->tag.num)}, static_cast<TaggingMode>(n->mode), type})};
    }
    // an assignment of `type` in module `where`; the result refers to it from module `module`
    Type ref(Node*& n, int module, int where, Node* inner, const Type& type, bool both_forms = false)
    {
        n = node(Node::REF, module);
        n->child.push_back(inner);
        std::string name = "T" + std::string(1, char('a' + names++));
        tree.modules[where].assignments.push_back(Assignment{name, TypeAssignment{type}, {}, {}});
        DefinedType d;
        if (where != module || (both_forms && vf_pick(0, 1, "module named") != 0)) d.module_reference = tree.modules[where].module_reference;
        d.type_reference = name;
        return d;
    }
    Type choice(Node*& n, int module, const std::vector<Node*>& alts, const std::vector<Type>& types)
    {
        n = node(Node::CHOICE, module);
        n->child = alts;
        ChoiceType c;
        c.storage = StorageMode::static_;
        for (size_t i = 0; i < types.size(); i++) c.choices.push_back(NamedType{std::string(1, char('a' + i)), types[i]});
        return BuiltinType{c};
    }
};
