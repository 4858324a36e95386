// Ordering of modules: names are symbolic, so every import relation over them is covered
#include "fast_ber/compiler/CompilerTypes.hpp"
#include "fast_ber/compiler/ReorderAssignments.hpp"
#include "vf.h"
#include <stdexcept>
#include <string>
#include <vector>
#ifndef NMODULES
#define NMODULES 3
#endif
#ifndef NIMPORTS
#define NIMPORTS 2
#endif
#ifndef NWIDE
#define NWIDE 1
#endif
static void decide(int modules, int imports, bool distinct, int patterns)
{
    const int pattern = int(vf_pick(0, patterns - 1, "kinds of imports"));
    int what[4][3];
    char name[4], import[4][3];
    int  count[4];
    std::vector<Module> in(modules);
    for (int i = 0; i < modules; i++)
    {
        name[i] = distinct ? char('A' + i) : char(vf_range('A', 'C', "name"));
        in[i].module_reference.assign(1, name[i]);
        in[i].tagging_default = static_cast<TaggingMode>(i % 3);
        in[i].assignments.push_back(Assignment{std::string(1, char('a' + i)), TypeAssignment{BuiltinType{NullType{}}}, {}, {}});
        count[i] = int(vf_pick(0, imports, "imports"));
        for (int j = 0; j < count[i]; j++)
        {
            import[i][j] = char(vf_range('A', 'A' + (distinct ? modules : 2), "imported module"));
            Import im;
            im.module_reference.assign(1, import[i][j]);
            // nothing (left behind by object classes), types only, values only, both
            what[i][j] = (pattern + i + j) & 3;
            if (what[i][j] & 1) im.imported_types.push_back(std::string(1, char('p' + j)));
            if (what[i][j] & 2) im.imported_values.push_back(std::string(1, char('s' + j)));
            in[i].imports.push_back(im);
        }
    }
    const std::vector<Module> before = in;
    std::vector<Module> out;
    bool                refused = false;
    try { out = reorder_modules(in); }
    catch (const std::runtime_error&) { refused = true; }
    // the same relation, by definition
    bool reach[4][4], missing = false, twice = false;
    for (int i = 0; i < modules; i++)
    {
        for (int k = 0; k < i; k++) twice |= name[i] == name[k];
        for (int k = 0; k < modules; k++) reach[i][k] = false;
        for (int j = 0; j < count[i]; j++)
        {
            bool found = false;
            for (int k = 0; k < modules; k++)
            {
                bool e = import[i][j] == name[k];
                reach[i][k] |= e;
                found |= e;
            }
            missing |= !found;
        }
    }
    for (int m = 0; m < modules; m++)
        for (int i = 0; i < modules; i++)
            for (int k = 0; k < modules; k++) reach[i][k] |= reach[i][m] & reach[m][k];
    bool cyclic = false;
    for (int i = 0; i < modules; i++) cyclic |= reach[i][i];
    if (refused)
    {
        vf_cover("refused");
        vf_check(missing | cyclic | twice, "modules are refused only if one is missing, defined twice or imports itself");
        return;
    }
    vf_cover("ordered");
    vf_check(!missing, "an import of a module which does not exist is reported");
    vf_check(!twice, "two modules of one name are reported");
    vf_check(int(out.size()) == modules, "as many modules as before");
    if (int(out.size()) != modules) return;
    int at[4];
    for (int i = 0; i < modules; i++)
    {
        at[i] = -1;
        for (int k = 0; k < modules; k++)
            if (out[k].assignments.size() == 1 && out[k].assignments[0].name == before[i].assignments[0].name)
            {
                vf_check(at[i] < 0, "no module appears twice");
                at[i] = k;
            }
        vf_check(at[i] >= 0, "every module appears");
        if (at[i] < 0) return;
        const Module& m = out[at[i]];
        bool same = m.module_reference == before[i].module_reference && m.tagging_default == before[i].tagging_default && m.imports.size() == before[i].imports.size();
        for (int j = 0; same && j < count[i]; j++)
            same = m.imports[j].module_reference[0] == import[i][j] && m.imports[j].imported_types == before[i].imports[j].imported_types && m.imports[j].imported_values == before[i].imports[j].imported_values;
        vf_check(same, "modules are kept as they were");
    }
    if (cyclic) return;
    for (int i = 0; i < modules; i++)
        for (int k = 0; k < modules; k++) vf_check(!reach[i][k] | (at[k] < at[i]), "a module comes after every module it imports from");
}
extern "C" void vf_modules() { decide(int(vf_pick(1, NMODULES, "modules")), NIMPORTS, true, 4); }
extern "C" void vf_modules_wide() { decide(4, NWIDE, true, 1); }
extern "C" void vf_modules_names() { decide(int(vf_pick(1, 3, "modules")), 1, false, 4); }
