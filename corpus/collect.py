# both collectors of coverages (C32): whole bodies in Python and C++
import os, re
CF, CX = 'scaks/solvers/kmc_plugins/kmc_functions.py', 'c++/src/kmc_functions.cpp'
R = os.environ.get('SCAKS_REPO', '/repo') + '/'
OLD, OLDX = open(R + CF).read(), open(R + CX).read()
H = 'import numpy as np\ndef collect_coverages(types, possible_types, coverage_ratios):\n'
EDITS = [
    ('C32', 'keep', 'collector map', [(CF, OLD, H + '''    n = len(types)//len(coverage_ratios)
    ratios = coverage_ratios*n
    return [sum([r for r, t in zip(ratios, types) if t == name])/float(n) for name in possible_types]
''')]),
    ('C32', 'keep', 'collector map_loop', [(CF, OLD, H + '''    n = len(types)//len(coverage_ratios)
    ratios = list(coverage_ratios)*n
    cvgs = []
    for name in possible_types:
        total = 0.0
        for i in range(len(types)):
            if types[i] == name:
                total += ratios[i]
        cvgs.append(total/n)
    return cvgs
''')]),
    ('C32', 'keep', 'collector mod', [(CF, OLD, H + '''    nbasis = len(coverage_ratios)
    n = len(types)//nbasis
    ntypes = [0.0 for _ in possible_types]
    for i, t in enumerate(types):
        if t in possible_types:
            ntypes[possible_types.index(t)] += coverage_ratios[i % nbasis]
    return [x/n for x in ntypes]
''')]),
    ('C32', 'keep', 'collector dict', [(CF, OLD, H + '''    n = len(types)//len(coverage_ratios)
    count = {t: 0.0 for t in possible_types}
    for ratio, t in zip(coverage_ratios*n, types):
        if t in count:
            count[t] += ratio
    return [count[t]/n for t in possible_types]
''')]),
    ('C32', 'keep', 'collector dictget', [(CF, OLD, H + '''    n = len(types)//len(coverage_ratios)
    count = {}
    for ratio, t in zip(coverage_ratios*n, types):
        count[t] = count.get(t, 0.0) + ratio
    return [count.get(t, 0.0)/n for t in possible_types]
''')]),
    ('C32', 'keep', 'collector defdict', [(CF, OLD, H + '''    from collections import defaultdict
    n = len(types)//len(coverage_ratios)
    count = defaultdict(float)
    for ratio, t in zip(coverage_ratios*n, types):
        count[t] += ratio
    return [count[t]/n for t in possible_types]
''')]),
    ('C32', 'keep', 'collector comp', [(CF, OLD, H + '''    n = len(types)//len(coverage_ratios)
    total = {t: sum(r for r, x in zip(coverage_ratios*n, types) if x == t) for t in possible_types}
    return [total[t]/float(n) for t in possible_types]
''')]),
    ('C32', 'keep', 'collector np', [(CF, OLD, H + '''    n = len(types)//len(coverage_ratios)
    ntypes = np.zeros(len(possible_types))
    for ratio, t in zip(coverage_ratios*n, types):
        if t in possible_types:
            ntypes[possible_types.index(t)] += ratio
    return list(ntypes/n)
''')]),
    ('C32', 'keep', 'collector helper', [(CF, OLD, H + '''    n = len(types)//len(coverage_ratios)
    def weight(name):
        w = 0
        for i, t in enumerate(types):
            if t != name:
                continue
            w += coverage_ratios[i % len(coverage_ratios)]
        return w
    return [weight(name)/float(n) for name in possible_types]
''')]),
    ('C32', 'keep', 'collector slices', [(CF, OLD, H + '''    nb = len(coverage_ratios)
    n = len(types)//nb
    cvgs = []
    for name in possible_types:
        w = 0.0
        for k in range(nb):
            w += coverage_ratios[k]*types[k::nb].count(name)
        cvgs.append(w/n)
    return cvgs
''')]),
    ('C32', 'keep', 'collector brk', [(CF, OLD, H + '''    n = len(types)//len(coverage_ratios)
    ntypes = [0]*len(possible_types)
    for ratio, t in zip(coverage_ratios*n, types):
        for j, name in enumerate(possible_types):
            if name == t:
                ntypes[j] += ratio
                break
    return [float(x)/n for x in ntypes]
''')]),
    ('C32', 'keep', 'collector idxmap', [(CF, OLD, H + '''    n = len(types)//len(coverage_ratios)
    position = {t: i for i, t in enumerate(possible_types)}
    ntypes = [0]*len(possible_types)
    for ratio, t in zip(coverage_ratios*n, types):
        if t in position:
            ntypes[position[t]] += ratio
    return [float(x)/n for x in ntypes]
''')]),
    ('C32', 'keep', 'collector try', [(CF, OLD, H + '''    n = len(types)//len(coverage_ratios)
    ntypes = [0]*len(possible_types)
    for ratio, t in zip(coverage_ratios*n, types):
        try:
            idx = possible_types.index(t)
        except ValueError:
            continue
        ntypes[idx] += ratio
    return [float(x)/n for x in ntypes]
''')]),
    ('C32', 'keep', 'collector cycle', [(CF, OLD, H + '''    n = len(types)//len(coverage_ratios)
    ntypes = [0]*len(possible_types)
    for cell in range(n):
        for k, ratio in enumerate(coverage_ratios):
            t = types[cell*len(coverage_ratios) + k]
            if t in possible_types:
                ntypes[possible_types.index(t)] += ratio
    return [float(x)/n for x in ntypes]
''')]),
    ('C32', 'keep', 'collector percell', [(CF, OLD, H + '''    n = len(types)//len(coverage_ratios)
    cvgs = [0.0]*len(possible_types)
    for ratio, t in zip(coverage_ratios*n, types):
        if t in possible_types:
            cvgs[possible_types.index(t)] += float(ratio)/n
    return cvgs
''')]),
    ('C32', 'keep', 'compiled index', [(CX, OLDX, '''#ifndef PLUGIN_BACKENDS_
#include "kmc_functions.h"
#endif

std::vector<double> collect_coverages(const std::vector<std::string> & types,
                                      const std::vector<std::string> & possible_types,
                                      const std::vector<double> & coverage_ratios)
{
    // Get ntotal umber of sites.
    const size_t nsite = types.size()/coverage_ratios.size();

    // Number of different types.
    std::vector<double> ntypes(possible_types.size(), 0.0);

    // Variables for coverage ratio.
    double ratio;
    int ratio_idx;

    // Loop over all types to collect coverages.
    for (size_t type_idx = 0; type_idx < types.size(); ++type_idx)
    {
        // Current element.
        const std::string & element = types[type_idx];

        // Get corresponding coverage ratio.
        ratio_idx = static_cast<int>(type_idx % coverage_ratios.size());
        ratio = coverage_ratios[ratio_idx];

        // Find the element in possible types, accumulate coverage.
        for (size_t i = 0; i < possible_types.size(); i++)
        {
            if (possible_types[i] != element) continue;
            ntypes[i] += ratio;
        }
    }

    // Calculate coverages.
    std::vector<double> coverages;
    double coverage;

    for (double ntype : ntypes)
    {
        coverage = ntype/static_cast<double>(nsite);
        coverages.push_back(coverage);
    }

    return coverages;
}

''')]),
    ('C32', 'keep', 'compiled stdfind', [(CX, OLDX, '''#include "kmc_functions.h"
#include <algorithm>
#include <numeric>
#include <map>
#include <iterator>
std::vector<double> collect_coverages(const std::vector<std::string> & types, const std::vector<std::string> & possible_types, const std::vector<double> & coverage_ratios)
{
    const size_t nsite = types.size()/coverage_ratios.size();
    std::vector<double> ntypes(possible_types.size(), 0.0);
    for (size_t i = 0; i < types.size(); ++i) {
        auto it = std::find(possible_types.begin(), possible_types.end(), types[i]);
        if (it == possible_types.end()) continue;
        ntypes[std::distance(possible_types.begin(), it)] += coverage_ratios[i % coverage_ratios.size()];
    }
    for (double & n : ntypes) n /= nsite;
    return ntypes;
}
''')]),
    ('C32', 'keep', 'compiled bytype', [(CX, OLDX, '''#include "kmc_functions.h"
#include <algorithm>
#include <numeric>
#include <map>
#include <iterator>
std::vector<double> collect_coverages(const std::vector<std::string> & types, const std::vector<std::string> & possible_types, const std::vector<double> & coverage_ratios)
{
    std::vector<double> out;
    const double cells = types.size()/coverage_ratios.size();
    for (const std::string & name : possible_types) {
        double sum = 0.0;
        for (size_t i = 0; i != types.size(); ++i)
            if (types[i] == name) sum += coverage_ratios[i % coverage_ratios.size()];
        out.push_back(sum/cells);
    }
    return out;
}
''')]),
    ('C32', 'keep', 'compiled helper', [(CX, OLDX, '''#include "kmc_functions.h"
#include <algorithm>
#include <numeric>
#include <map>
#include <iterator>
static double weight(const std::vector<std::string> & types, const std::string & name, const std::vector<double> & ratios)
{
    double w = 0;
    for (size_t i = 0; i < types.size(); ++i) {
        w += types[i] == name ? ratios[i % ratios.size()] : 0.0;
    }
    return w;
}
std::vector<double> collect_coverages(const std::vector<std::string> & types, const std::vector<std::string> & possible_types, const std::vector<double> & coverage_ratios)
{
    const size_t n = coverage_ratios.size();
    std::vector<double> out(possible_types.size());
    for (size_t j = 0; j < possible_types.size(); ++j)
        out[j] = weight(types, possible_types[j], coverage_ratios)/static_cast<double>(types.size()/n);
    return out;
}
''')]),
    ('C32', 'keep', 'compiled counter', [(CX, OLDX, '''#ifndef PLUGIN_BACKENDS_
#include "kmc_functions.h"
#endif

std::vector<double> collect_coverages(const std::vector<std::string> & types,
                                      const std::vector<std::string> & possible_types,
                                      const std::vector<double> & coverage_ratios)
{
    // Get ntotal umber of sites.
    const size_t nsite = types.size()/coverage_ratios.size();

    // Number of different types.
    std::vector<double> ntypes(possible_types.size(), 0.0);

    // Variables for coverage ratio.
    double ratio;
    int ratio_idx;

    // Loop over all types to collect coverages.
    for (size_t type_idx = 0; type_idx < types.size(); ++type_idx)
    {
        // Current element.
        const std::string & element = types[type_idx];

        // Get corresponding coverage ratio.
        ratio_idx = static_cast<int>(type_idx - (type_idx/coverage_ratios.size())*coverage_ratios.size());
        ratio = coverage_ratios[ratio_idx];

        // Find the element in possible types, accumulate coverage.
        DoubleIterType ntypes_it = ntypes.begin();
        ConstStrIterType possible_types_it = possible_types.begin();
        const ConstStrIterType end = possible_types.end();

        for (; possible_types_it != end; ++ntypes_it, ++possible_types_it)
        {
            if (element == *possible_types_it)
            {
                // Accumulate.
                *ntypes_it += ratio;
            }
        }
    }

    // Calculate coverages.
    std::vector<double> coverages;
    double coverage;

    for (double ntype : ntypes)
    {
        coverage = ntype/static_cast<double>(nsite);
        coverages.push_back(coverage);
    }

    return coverages;
}

''')]),
    ('C32', 'keep', 'compiled map', [(CX, OLDX, '''#include "kmc_functions.h"
#include <algorithm>
#include <numeric>
#include <map>
#include <iterator>
std::vector<double> collect_coverages(const std::vector<std::string> & types, const std::vector<std::string> & possible_types, const std::vector<double> & coverage_ratios)
{
    std::map<std::string, double> total;
    for (size_t i = 0; i < types.size(); ++i) total[types[i]] += coverage_ratios[i % coverage_ratios.size()];
    std::vector<double> out;
    out.reserve(possible_types.size());
    for (const auto & name : possible_types) out.push_back(total[name]/(types.size()/coverage_ratios.size()));
    return out;
}
''')]),
    ('C32', 'keep', 'compiled cells', [(CX, OLDX, '''#include "kmc_functions.h"
#include <algorithm>
#include <numeric>
#include <map>
#include <iterator>
std::vector<double> collect_coverages(const std::vector<std::string> & types, const std::vector<std::string> & possible_types, const std::vector<double> & coverage_ratios)
{
    const size_t nb = coverage_ratios.size();
    const size_t cells = types.size()/nb;
    std::vector<double> ntypes(possible_types.size(), 0.0);
    for (size_t c = 0; c < cells; ++c)
        for (size_t b = 0; b < nb; ++b)
            for (size_t j = 0; j < possible_types.size(); ++j)
                if (types[c*nb + b] == possible_types[j]) { ntypes[j] += coverage_ratios[b]; break; }
    std::vector<double> out;
    for (size_t j = 0; j < ntypes.size(); ++j) out.push_back(ntypes[j]/cells);
    return out;
}
''')]),
    ('C32', 'keep', 'compiled wrap', [(CX, OLDX, '''#include "kmc_functions.h"
#include <algorithm>
#include <numeric>
#include <map>
#include <iterator>
std::vector<double> collect_coverages(const std::vector<std::string> & types, const std::vector<std::string> & possible_types, const std::vector<double> & coverage_ratios)
{
    const size_t nsite = types.size()/coverage_ratios.size();
    std::vector<double> ntypes(possible_types.size(), 0.0);
    size_t b = 0;
    for (const auto & t : types) {
        for (size_t j = 0; j < possible_types.size(); ++j) if (t == possible_types[j]) ntypes[j] += coverage_ratios[b];
        if (++b == coverage_ratios.size()) b = 0;
    }
    for (auto & n : ntypes) n = n/nsite;
    return ntypes;
}
''')]),
    ('C32', 'break', 'collector b_last', [(CF, OLD, H + '''    n = len(types)//len(coverage_ratios)
    ratios = coverage_ratios*n
    return [sum([r for r, t in zip(ratios, types) if t != name])/float(n) for name in possible_types]
''')]),
    ('C32', 'break', 'collector b_site', [(CF, OLD, H + '''    nbasis = len(coverage_ratios)
    n = len(types)//nbasis
    ntypes = [0.0 for _ in possible_types]
    for i, t in enumerate(types):
        if t in possible_types:
            ntypes[possible_types.index(t)] += coverage_ratios[i // n]
    return [x/n for x in ntypes]
''')]),
    ('C32', 'break', 'collector b_first', [(CF, OLD, H + '''    n = len(types)//len(coverage_ratios)
    ratios = list(coverage_ratios)*n
    cvgs = []
    for name in possible_types:
        total = 0.0
        for i in range(len(types)):
            if types[i] == name:
                total = ratios[i]
        cvgs.append(total/n)
    return cvgs
''')]),
    ('C32', 'break', 'collector b_len', [(CF, OLD, H + '''    n = len(types)//len(coverage_ratios)
    count = {t: 0.0 for t in possible_types}
    for ratio, t in zip(coverage_ratios*n, types):
        if t in count:
            count[t] += ratio
    return [count[t]/len(types) for t in possible_types]
''')]),
    ('C32', 'break', 'collector b_unl', [(CF, OLD, H + '''    n = len(types)//len(coverage_ratios)
    position = {t: i for i, t in enumerate(possible_types)}
    ntypes = [0]*len(possible_types)
    for ratio, t in zip(coverage_ratios*n, types):
        if True:
            ntypes[position.get(t, 0)] += ratio
    return [float(x)/n for x in ntypes]
''')]),
    ('C32', 'break', 'collector b_break', [(CF, OLD, H + '''    n = len(types)//len(coverage_ratios)
    ntypes = [0]*len(possible_types)
    for ratio, t in zip(coverage_ratios*n, types):
        try:
            idx = possible_types.index(t)
        except ValueError:
            break
        ntypes[idx] += ratio
    return [float(x)/n for x in ntypes]
''')]),
    ('C32', 'break', 'compiled b_break_next', [(CX, OLDX, '''#ifndef PLUGIN_BACKENDS_
#include "kmc_functions.h"
#endif

std::vector<double> collect_coverages(const std::vector<std::string> & types,
                                      const std::vector<std::string> & possible_types,
                                      const std::vector<double> & coverage_ratios)
{
    // Get ntotal umber of sites.
    const size_t nsite = types.size()/coverage_ratios.size();

    // Number of different types.
    std::vector<double> ntypes(possible_types.size(), 0.0);

    // Variables for coverage ratio.
    double ratio;
    int ratio_idx;

    // Loop over all types to collect coverages.
    for (size_t type_idx = 0; type_idx < types.size(); ++type_idx)
    {
        // Current element.
        const std::string & element = types[type_idx];

        // Get corresponding coverage ratio.
        ratio_idx = static_cast<int>(type_idx % coverage_ratios.size());
        ratio = coverage_ratios[ratio_idx];

        // Find the element in possible types, accumulate coverage.
        DoubleIterType ntypes_it = ntypes.begin();
        ConstStrIterType possible_types_it = possible_types.begin();
        const ConstStrIterType end = possible_types.end();

        for (; possible_types_it != end; ++ntypes_it, ++possible_types_it)
        {
            if (element == *possible_types_it)
            {
                // Accumulate.
                *ntypes_it += ratio;
                if (ratio < 1.0) ratio = 1.0;
            }
        }
    }

    // Calculate coverages.
    std::vector<double> coverages;
    double coverage;

    for (double ntype : ntypes)
    {
        coverage = ntype/static_cast<double>(nsite);
        coverages.push_back(coverage);
    }

    return coverages;
}

''')]),
    ('C32', 'break', 'compiled b_ratio_block', [(CX, OLDX, '''#ifndef PLUGIN_BACKENDS_
#include "kmc_functions.h"
#endif

std::vector<double> collect_coverages(const std::vector<std::string> & types,
                                      const std::vector<std::string> & possible_types,
                                      const std::vector<double> & coverage_ratios)
{
    // Get ntotal umber of sites.
    const size_t nsite = types.size()/coverage_ratios.size();

    // Number of different types.
    std::vector<double> ntypes(possible_types.size(), 0.0);

    // Variables for coverage ratio.
    double ratio;
    int ratio_idx;

    // Loop over all types to collect coverages.
    for (size_t type_idx = 0; type_idx < types.size(); ++type_idx)
    {
        // Current element.
        const std::string & element = types[type_idx];

        // Get corresponding coverage ratio.
        ratio_idx = static_cast<int>(type_idx / nsite);
        ratio = coverage_ratios[ratio_idx];

        // Find the element in possible types, accumulate coverage.
        DoubleIterType ntypes_it = ntypes.begin();
        ConstStrIterType possible_types_it = possible_types.begin();
        const ConstStrIterType end = possible_types.end();

        for (; possible_types_it != end; ++ntypes_it, ++possible_types_it)
        {
            if (element == *possible_types_it)
            {
                // Accumulate.
                *ntypes_it += ratio;
            }
        }
    }

    // Calculate coverages.
    std::vector<double> coverages;
    double coverage;

    for (double ntype : ntypes)
    {
        coverage = ntype/static_cast<double>(nsite);
        coverages.push_back(coverage);
    }

    return coverages;
}

''')]),
    ('C32', 'break', 'compiled b_nsite', [(CX, OLDX, '''#ifndef PLUGIN_BACKENDS_
#include "kmc_functions.h"
#endif

std::vector<double> collect_coverages(const std::vector<std::string> & types,
                                      const std::vector<std::string> & possible_types,
                                      const std::vector<double> & coverage_ratios)
{
    // Get ntotal umber of sites.
    const size_t nsite = types.size()/possible_types.size();

    // Number of different types.
    std::vector<double> ntypes(possible_types.size(), 0.0);

    // Variables for coverage ratio.
    double ratio;
    int ratio_idx;

    // Loop over all types to collect coverages.
    for (size_t type_idx = 0; type_idx < types.size(); ++type_idx)
    {
        // Current element.
        const std::string & element = types[type_idx];

        // Get corresponding coverage ratio.
        ratio_idx = static_cast<int>(type_idx % coverage_ratios.size());
        ratio = coverage_ratios[ratio_idx];

        // Find the element in possible types, accumulate coverage.
        DoubleIterType ntypes_it = ntypes.begin();
        ConstStrIterType possible_types_it = possible_types.begin();
        const ConstStrIterType end = possible_types.end();

        for (; possible_types_it != end; ++ntypes_it, ++possible_types_it)
        {
            if (element == *possible_types_it)
            {
                // Accumulate.
                *ntypes_it += ratio;
            }
        }
    }

    // Calculate coverages.
    std::vector<double> coverages;
    double coverage;

    for (double ntype : ntypes)
    {
        coverage = ntype/static_cast<double>(nsite);
        coverages.push_back(coverage);
    }

    return coverages;
}

''')]),
    ('C32', 'break', 'compiled b_intdiv', [(CX, OLDX, '''#ifndef PLUGIN_BACKENDS_
#include "kmc_functions.h"
#endif

std::vector<double> collect_coverages(const std::vector<std::string> & types,
                                      const std::vector<std::string> & possible_types,
                                      const std::vector<double> & coverage_ratios)
{
    // Get ntotal umber of sites.
    const size_t nsite = types.size()/coverage_ratios.size();

    // Number of different types.
    std::vector<double> ntypes(possible_types.size(), 0.0);

    // Variables for coverage ratio.
    double ratio;
    int ratio_idx;

    // Loop over all types to collect coverages.
    for (size_t type_idx = 0; type_idx < types.size(); ++type_idx)
    {
        // Current element.
        const std::string & element = types[type_idx];

        // Get corresponding coverage ratio.
        ratio_idx = static_cast<int>(type_idx % coverage_ratios.size());
        ratio = coverage_ratios[ratio_idx];

        // Find the element in possible types, accumulate coverage.
        DoubleIterType ntypes_it = ntypes.begin();
        ConstStrIterType possible_types_it = possible_types.begin();
        const ConstStrIterType end = possible_types.end();

        for (; possible_types_it != end; ++ntypes_it, ++possible_types_it)
        {
            if (element == *possible_types_it)
            {
                // Accumulate.
                *ntypes_it += ratio;
            }
        }
    }

    // Calculate coverages.
    std::vector<double> coverages;
    double coverage;

    for (int ntype : ntypes)
    {
        coverage = ntype/static_cast<double>(nsite);
        coverages.push_back(coverage);
    }

    return coverages;
}

''')]),
    ('C32', 'break', 'compiled b_first', [(CX, OLDX, '''#ifndef PLUGIN_BACKENDS_
#include "kmc_functions.h"
#endif

std::vector<double> collect_coverages(const std::vector<std::string> & types,
                                      const std::vector<std::string> & possible_types,
                                      const std::vector<double> & coverage_ratios)
{
    // Get ntotal umber of sites.
    const size_t nsite = types.size()/coverage_ratios.size();

    // Number of different types.
    std::vector<double> ntypes(possible_types.size(), 0.0);

    // Variables for coverage ratio.
    double ratio;
    int ratio_idx;

    // Loop over all types to collect coverages.
    for (size_t type_idx = 0; type_idx < types.size(); ++type_idx)
    {
        // Current element.
        const std::string & element = types[type_idx];

        // Get corresponding coverage ratio.
        ratio_idx = static_cast<int>(type_idx % coverage_ratios.size());
        ratio = coverage_ratios[ratio_idx];

        // Find the element in possible types, accumulate coverage.
        DoubleIterType ntypes_it = ntypes.begin();
        ConstStrIterType possible_types_it = possible_types.begin() + 1;
        const ConstStrIterType end = possible_types.end();

        for (; possible_types_it != end; ++ntypes_it, ++possible_types_it)
        {
            if (element == *possible_types_it)
            {
                // Accumulate.
                *ntypes_it += ratio;
            }
        }
    }

    // Calculate coverages.
    std::vector<double> coverages;
    double coverage;

    for (double ntype : ntypes)
    {
        coverage = ntype/static_cast<double>(nsite);
        coverages.push_back(coverage);
    }

    return coverages;
}

''')]),
    ('C32', 'break', 'compiled b_last', [(CX, OLDX, '''#ifndef PLUGIN_BACKENDS_
#include "kmc_functions.h"
#endif

std::vector<double> collect_coverages(const std::vector<std::string> & types,
                                      const std::vector<std::string> & possible_types,
                                      const std::vector<double> & coverage_ratios)
{
    // Get ntotal umber of sites.
    const size_t nsite = types.size()/coverage_ratios.size();

    // Number of different types.
    std::vector<double> ntypes(possible_types.size(), 0.0);

    // Variables for coverage ratio.
    double ratio;
    int ratio_idx;

    // Loop over all types to collect coverages.
    for (size_t type_idx = 0; type_idx + 1 < types.size(); ++type_idx)
    {
        // Current element.
        const std::string & element = types[type_idx];

        // Get corresponding coverage ratio.
        ratio_idx = static_cast<int>(type_idx % coverage_ratios.size());
        ratio = coverage_ratios[ratio_idx];

        // Find the element in possible types, accumulate coverage.
        DoubleIterType ntypes_it = ntypes.begin();
        ConstStrIterType possible_types_it = possible_types.begin();
        const ConstStrIterType end = possible_types.end();

        for (; possible_types_it != end; ++ntypes_it, ++possible_types_it)
        {
            if (element == *possible_types_it)
            {
                // Accumulate.
                *ntypes_it += ratio;
            }
        }
    }

    // Calculate coverages.
    std::vector<double> coverages;
    double coverage;

    for (double ntype : ntypes)
    {
        coverage = ntype/static_cast<double>(nsite);
        coverages.push_back(coverage);
    }

    return coverages;
}

''')]),
    ('C32', 'break', 'compiled b_last2', [(CX, OLDX, '''#ifndef PLUGIN_BACKENDS_
#include "kmc_functions.h"
#endif

std::vector<double> collect_coverages(const std::vector<std::string> & types,
                                      const std::vector<std::string> & possible_types,
                                      const std::vector<double> & coverage_ratios)
{
    // Get ntotal umber of sites.
    const size_t nsite = types.size()/coverage_ratios.size();

    // Number of different types.
    std::vector<double> ntypes(possible_types.size(), 0.0);

    // Variables for coverage ratio.
    double ratio;
    int ratio_idx;

    // Loop over all types to collect coverages.
    for (size_t type_idx = 1; type_idx < types.size(); ++type_idx)
    {
        // Current element.
        const std::string & element = types[type_idx];

        // Get corresponding coverage ratio.
        ratio_idx = static_cast<int>(type_idx % coverage_ratios.size());
        ratio = coverage_ratios[ratio_idx];

        // Find the element in possible types, accumulate coverage.
        DoubleIterType ntypes_it = ntypes.begin();
        ConstStrIterType possible_types_it = possible_types.begin();
        const ConstStrIterType end = possible_types.end();

        for (; possible_types_it != end; ++ntypes_it, ++possible_types_it)
        {
            if (element == *possible_types_it)
            {
                // Accumulate.
                *ntypes_it += ratio;
            }
        }
    }

    // Calculate coverages.
    std::vector<double> coverages;
    double coverage;

    for (double ntype : ntypes)
    {
        coverage = ntype/static_cast<double>(nsite);
        coverages.push_back(coverage);
    }

    return coverages;
}

''')]),
    ('C32', 'break', 'compiled b_float', [(CX, OLDX, '''#ifndef PLUGIN_BACKENDS_
#include "kmc_functions.h"
#endif

std::vector<double> collect_coverages(const std::vector<std::string> & types,
                                      const std::vector<std::string> & possible_types,
                                      const std::vector<double> & coverage_ratios)
{
    // Get ntotal umber of sites.
    const size_t nsite = types.size()/coverage_ratios.size();

    // Number of different types.
    std::vector<double> ntypes(possible_types.size(), 0.0);

    // Variables for coverage ratio.
    int ratio;
    int ratio_idx;

    // Loop over all types to collect coverages.
    for (size_t type_idx = 0; type_idx < types.size(); ++type_idx)
    {
        // Current element.
        const std::string & element = types[type_idx];

        // Get corresponding coverage ratio.
        ratio_idx = static_cast<int>(type_idx % coverage_ratios.size());
        ratio = coverage_ratios[ratio_idx];

        // Find the element in possible types, accumulate coverage.
        DoubleIterType ntypes_it = ntypes.begin();
        ConstStrIterType possible_types_it = possible_types.begin();
        const ConstStrIterType end = possible_types.end();

        for (; possible_types_it != end; ++ntypes_it, ++possible_types_it)
        {
            if (element == *possible_types_it)
            {
                // Accumulate.
                *ntypes_it += ratio;
            }
        }
    }

    // Calculate coverages.
    std::vector<double> coverages;
    double coverage;

    for (double ntype : ntypes)
    {
        coverage = ntype/static_cast<double>(nsite);
        coverages.push_back(coverage);
    }

    return coverages;
}

''')]),
    ('C32', 'break', 'compiled b_nine', [(CX, OLDX, '''#ifndef PLUGIN_BACKENDS_
#include "kmc_functions.h"
#endif

std::vector<double> collect_coverages(const std::vector<std::string> & types,
                                      const std::vector<std::string> & possible_types,
                                      const std::vector<double> & coverage_ratios)
{
    // Get ntotal umber of sites.
    const size_t nsite = types.size();

    // Number of different types.
    std::vector<double> ntypes(possible_types.size(), 0.0);

    // Variables for coverage ratio.
    double ratio;
    int ratio_idx;

    // Loop over all types to collect coverages.
    for (size_t type_idx = 0; type_idx < types.size(); ++type_idx)
    {
        // Current element.
        const std::string & element = types[type_idx];

        // Get corresponding coverage ratio.
        ratio_idx = static_cast<int>(type_idx % coverage_ratios.size());
        ratio = coverage_ratios[ratio_idx];

        // Find the element in possible types, accumulate coverage.
        DoubleIterType ntypes_it = ntypes.begin();
        ConstStrIterType possible_types_it = possible_types.begin();
        const ConstStrIterType end = possible_types.end();

        for (; possible_types_it != end; ++ntypes_it, ++possible_types_it)
        {
            if (element == *possible_types_it)
            {
                // Accumulate.
                *ntypes_it += ratio;
            }
        }
    }

    // Calculate coverages.
    std::vector<double> coverages;
    double coverage;

    for (double ntype : ntypes)
    {
        coverage = ntype/static_cast<double>(nsite);
        coverages.push_back(coverage);
    }

    return coverages;
}

''')]),
    ('C32', 'break', 'compiled b_mod', [(CX, OLDX, '''#ifndef PLUGIN_BACKENDS_
#include "kmc_functions.h"
#endif

std::vector<double> collect_coverages(const std::vector<std::string> & types,
                                      const std::vector<std::string> & possible_types,
                                      const std::vector<double> & coverage_ratios)
{
    // Get ntotal umber of sites.
    const size_t nsite = types.size()/coverage_ratios.size();

    // Number of different types.
    std::vector<double> ntypes(possible_types.size(), 0.0);

    // Variables for coverage ratio.
    double ratio;
    int ratio_idx;

    // Loop over all types to collect coverages.
    for (size_t type_idx = 0; type_idx < types.size(); ++type_idx)
    {
        // Current element.
        const std::string & element = types[type_idx];

        // Get corresponding coverage ratio.
        ratio_idx = static_cast<int>(type_idx % possible_types.size());
        ratio = coverage_ratios[ratio_idx];

        // Find the element in possible types, accumulate coverage.
        DoubleIterType ntypes_it = ntypes.begin();
        ConstStrIterType possible_types_it = possible_types.begin();
        const ConstStrIterType end = possible_types.end();

        for (; possible_types_it != end; ++ntypes_it, ++possible_types_it)
        {
            if (element == *possible_types_it)
            {
                // Accumulate.
                *ntypes_it += ratio;
            }
        }
    }

    // Calculate coverages.
    std::vector<double> coverages;
    double coverage;

    for (double ntype : ntypes)
    {
        coverage = ntype/static_cast<double>(nsite);
        coverages.push_back(coverage);
    }

    return coverages;
}

''')]),
]
