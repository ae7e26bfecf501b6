import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')); import run; ALL = sorted(run.TABLE)
M = []


def m(name, expect, *edits, **k):
    M.append(dict(name=name, expect=expect, edits=list(edits), **k))


ND, J = 'dr_nd/dr_nd.cc', 'dr/compute_reduction_matrix_J.cc'
FJ, FND = 'hypersurface/frob_matrix_J.cc', 'hypersurface_nd/hypersurface_nd.cc'
EJ = 'dr/compute_everything_J.cc'
m('nd-critical-removed', ['C01'], (ND, '#pragma omp critical\n', '\n'))
m('nd-critical-renamed', ['C01'], (ND, '#pragma omp critical\n', '#pragma omp critical(other)\n'))
m('shared-local', ['C01'], (FJ, "    #pragma omp parallel for schedule(dynamic)\n    #endif", "    int64_t j, m, sum;\n    #pragma omp parallel for schedule(dynamic)\n    #endif"), (FJ, "        int64_t j, m, sum;\n", ""))
m('static-local', ['C01'], (J, "            Vec<int64_t> one_minus_ei;\n", "            static Vec<int64_t> one_minus_ei;\n"))
m('no-fpow-prefill', ['C01', 'C02'], (FND, "      compute_fpow(max(N) - 1);\n", ""))
m('fpow-prefill-short', ['C02'], (FJ, "compute_fpow(max(N) - 1);", "compute_fpow(max(N) - 2);"))
m('fpow-prefill-N0', ['C02'], (FJ, "compute_fpow(max(N) - 1);", "compute_fpow(N[0] - 1);"))
m('prefill-threads-2', ['C02'], (FND, "    if(omp_get_max_threads() > 1) {\n      dR_ND", "    if(omp_get_max_threads() > 2) {\n      dR_ND"))
m('prefill-positive-1', ['C02'], (ND, "positive = positive && (u[j] > 0);", "positive = positive && (u[j] > 1);"))
m('prefill-skip-first', ['C02'], (EJ, "for(i = 0; i  < (int64_t) tuple_list[n]", "for(i = 1; i  < (int64_t) tuple_list[n]"))
m('prefill-wrong-degree', ['C02'], (EJ, "u = tuple_list[n][i];", "u = tuple_list[n-1][i];"), (EJ, "tuple_list[n].length", "tuple_list[n-1].length"))
m('prefill-final-short', ['C02'], (EJ, "get_final_reduction_matrix_J(n);", "get_final_reduction_matrix_J(n-1);"))
m('prefill-no-ZZ', ['C02'], (EJ, "        compute_reduction_matrix_J_ZZ( u );\n", ""))
m('prefill-erase', ['C02'], (ND, "        if( !existQ && save_memory )\n            reduction_matrix_ND_poly_dict", "        reduction_matrix_ND_poly_ZZ_dict.erase(v);if( !existQ && save_memory)\n            reduction_matrix_ND_poly_dict") )
m('no-restore', ['C03'], (FND, "        context.restore();\n", ""))
m('restore-J-late', ['C03'], (J, "            context.restore();\n", ""), (J, "            if(boolean)", "            if(boolean) context.restore();\n            if(boolean)"))
m('no-save', ['C03'], (FJ, "    context.save();\n", ""))
m('G-list-overlap', ['C01'], (FND, "reduce_vector_ND_poly_flint(G_list + i*dpowern", "reduce_vector_ND_poly_flint(G_list + 0 * dpowern"))
m('write-F-fixed', ['C01'], (FJ, "F[i] = frob_J(i, N[m-1]);", "F[m] = frob_J(i, N[m-1]);"))
# refactorings
m('ref-helper', [], (FJ, "Mat<ZZ_p> hypersurface::frob_matrix_J(", "static int64_t pole(const Vec<int64_t> &w, int64_t n, int64_t d)\n{\n  int64_t s = 0;\n  for(int64_t k = n; k >= 0; k--)\n    s += w[k];\n  return (s + n + 1)/d;\n}\n\nMat<ZZ_p> hypersurface::frob_matrix_J("),
  (FJ, "        int64_t j, m, sum;\n        sum = 0;\n        for( j = 0; j<=n; j++)\n            sum += dR->coKernels_J_basis[i][j];\n\n        m = (sum + n + 1)/d;\n", "        const int64_t m = pole(dR->coKernels_J_basis[i], n, d);\n"))
m('ref-everything', [], (EJ, "    for(i = 0; i < (int64_t) tuple_list[d].length(); i++)\n    {\n        u = tuple_list[d][i];\n        compute_reduction_matrix_J( u );\n        compute_reduction_matrix_J_ZZ( u );\n    }", "    const Vec< Vec<int64_t> > &L = tuple_list[d];\n    int64_t len = L.length();\n    int64_t k = 0;\n    while(k < len)\n    {\n        compute_reduction_matrix_J( L[k] );\n        compute_reduction_matrix_J_ZZ( L[k] );\n        ++k;\n    }"))
m('ref-omp-split', [], (FND, "    #pragma omp parallel for schedule(dynamic)\n    #endif\n    for(int64_t i = 0; i < (int64_t) dR->coKernels_J_basis.length(); i++)", "    #pragma omp parallel for schedule(dynamic)\n    #endif\n    for(int64_t i = 0; i <= (int64_t) dR->coKernels_J_basis.length() - 1; ++i)"))

SS, CV, TG, GP = 'solve_system/solve_system.cc', 'conv/conv.cc', 'tools/tuple_list_generator.cc', 'tools/geometric_picard.cc'
m('lc-early-return-leak', ['C05'], (SS, "    assert(rank == (int64_t)pivot_cols.length());\n", "    if(rank == nrows) return;\n"))
m('lc-clear-moved-up', ['C05'], (SS, "    nmod_mat_clear(T_copy);\n", ""), (SS, "    flint_free(P);\n    pivot_cols", "    flint_free(P);\n    nmod_mat_clear(T_copy);\n    pivot_cols"))
m('lc-missing-clear', ['C05'], (SS, "    nmod_mat_clear(T_transpose);\n    nmod_mat_inv", "    nmod_mat_inv"))
m('lc-clear-in-loop', ['C05'], (FND, "            flint_free(poly_list);\n            _fmpz_vec_clear(G_list,Hlen*dpowern);\n", "            flint_free(poly_list);\n            _fmpz_vec_clear(G_list,Hlen*dpowern);\n            fmpz_clear(modulus);\n"))
m('lc-short-elements', ['C05'], (FND, "            for(i = 0; i < Hlen*(n+2); i++)\n                fmpz_mat_clear(poly_list + i);\n\n            for(i = 0; i < Hlen; i++)", "            for(i = 0; i < Hlen*(n+1); i++)\n                fmpz_mat_clear(poly_list + i);\n\n            for(i = 0; i < Hlen; i++)"))
m('lc-wrong-family', ['C05'], (TG, "delete[] tuple", "delete tuple"))
m('lc-vec-len', ['C05'], (ND, "_fmpz_vec_clear(Gout, dpowern);", "_fmpz_vec_clear(Gout, dpowern - 1);"))
m('lc-clear-before-use', ['C05'], (ND, "        _fmpz_vec_set(result, Gin, dpowern);\n        _fmpz_vec_clear(Gin, dpowern);", "        _fmpz_vec_clear(Gin, dpowern);\n        _fmpz_vec_set(result, Gin, dpowern);"))
m('lc-no-init', ['C05'], (GP, "    fmpz_init(rem);\n", ""))
m('lc-swap-drop', ['C05'], (ND, "    _nmod_vec_clear(Hout);\n    _nmod_vec_clear(H);", "    _nmod_vec_clear(H);\n    _nmod_vec_clear(H);"))
m('lc-cond-clear', ['C05'], (SS, "        nmod_mat_clear(XU);", "        if(Blength) nmod_mat_clear(XU);"))
m('ref-lc-helper', [], (SS, "void solve_system_zz_p_flint(", "static void drop(nmod_mat_t A, nmod_mat_t B)\n{\n    nmod_mat_clear(A);\n    nmod_mat_clear(B);\n}\nvoid solve_system_zz_p_flint("), (SS, "        nmod_mat_clear(XU);\n        nmod_mat_clear(UXU);", "        drop(UXU, XU);"))
m('ref-lc-while', [], (FND, "            for(i = 0; i < Hlen*(n+2); i++)\n                fmpz_mat_clear(poly_list + i);\n\n            for(i = 0; i < Hlen; i++)", "            i = 0;\n            while(i < Hlen*(n+2))\n            {\n                fmpz_mat_clear(poly_list + i);\n                ++i;\n            }\n\n            for(i = 0; i < Hlen; i++)"))
m('ref-lc-tmpswap', [], (ND, "        mul(Hout, Mfd + 0, H, dot_params);\n        swap(H, Hout);", "        mul(Hout, Mfd + 0, H, dot_params);\n        mp_ptr Hswap = H;\n        H = Hout;\n        Hout = Hswap;"))
m('as-impure', ['C13'], (SS, "    assert(rank == (int64_t)pivot_cols.length());", "    assert((rank = (int64_t)pivot_cols.length()) >= 0);"))
m('as-mapindex', ['C13'], (ND, "    assert( inclusion_matrix_ND_dict.find(u) == inclusion_matrix_ND_dict.end() );", "    assert( inclusion_matrix_ND_dict[u].length() == 0 );"))
m('as-ndebug-code', ['C13'], (ND, "    assert( inclusion_matrix_ND_dict.find(u) == inclusion_matrix_ND_dict.end() );", "#ifdef NDEBUG\n    if( inclusion_matrix_ND_dict.find(u) != inclusion_matrix_ND_dict.end() ) return;\n#endif"))

SV, CO = 'dr/save.cc', 'dr/constructors.cc'
m('ps-order', ['C06'], (SV, "        file << n <<endl;\n        file << d <<endl;\n", "        file << d <<endl;\n        file << n <<endl;\n"))
m('ps-level', ['C06'], (SV, "get_solve_J((d - 2)*(n + 1) + 1)", "get_solve_J((d - 1)*(n + 1) - n)"), (CO, "solve_J[(d - 2) * (n + 1) + 1]", "solve_J[(d - 2) * (n + 1)]"))
m('ps-loop-short', ['C06'], (SV, "for( i = 0; i < n ; i++)", "for( i = 0; i < n - 1 ; i++)"))
m('ps-loop-order', ['C06'], (SV, "for( i = 0; i < n ; i++)", "for( i = n - 1; i >= 0 ; i--)"))
m('ps-omit-basisdict', ['C06'], (CO, "    while(boolean)\n", "    while(boolean)\n"), (CO, "            coKernels_J_basis_dict[ coKernels_J_basis[i] ] = i;\n        }\n\n    }\n    else", "            (void) i;\n        }\n\n    }\n    else"))
m('ps-bigfirst', ['C06'], (SV, "            file << solve_pair->first <<endl;\n            file << solve_pair->second <<endl;\n        }\n        solve_pair", "            file << solve_pair->second <<endl;\n            file << solve_pair->first <<endl;\n        }\n        solve_pair"))
m('ps-nd-hilbert', ['C06'], (ND, "        file << Hilbert_ND << endl;", "        file << Hilbert_J << endl;"))
m('ps-nd-drop-last', ['C06'], (ND, "        file << solve_pair->first <<endl;\n        file << solve_pair->second <<endl;\n\n        file << Hilbert_ND", "        file << Hilbert_ND"))
m('ps-f-index', ['C06'], (CO, "                f[ tuple_list[d][i] ] = f_vector[i];\n                fbar", "                f[ tuple_list[d][0] ] = f_vector[i];\n                fbar"))
m('ps-fbar-lost', ['C06'], (CO, "                fbar[ tuple_list[d][i] ] = conv<zz_p>( rep( f_vector[i] ) );\n            }\n        }\n\n        for(i = 0; i < n; i++)", "            }\n        }\n\n        for(i = 0; i < n; i++)"))
m('ps-marker-early', ['C07'], (SV, "        remove(fileswpname.c_str());\n", ""), (SV, "        for( i = 0; i < n ; i++)\n", "        remove(fileswpname.c_str());\n        for( i = 0; i < n ; i++)\n"))
m('ps-marker-before-close', ['C07'], (SV, "        remove(fileswpname.c_str());\n", ""), (SV, "        file.close();\n", "        remove(fileswpname.c_str());\n        file.close();\n"))
m('ps-true-on-failure', ['C07'], (SV, "or \"<<fileswpname<<endl;\n        return false;", "or \"<<fileswpname<<endl;\n        return true;"))
m('ps-data-first', ['C07'], (SV, "    if(fileswp.is_open())\n        file.open(filename, ios::out | ios::trunc);\n", ""), (SV, "    ofstream fileswp;\n", "    ofstream file;\n    file.open(filename, ios::out | ios::trunc);\n    ofstream fileswp;\n"), (SV, "    int64_t i;\n    ofstream file;\n", "    int64_t i;\n"))
m('ps-no-failcheck', ['C07'], (ND, "        if(file.fail())\n", "        if(false)\n"))
m('ps-or', ['C07'], (SV, "file.is_open() && fileswp.is_open()", "file.is_open() || fileswp.is_open()"))
m('ps-load-noprec', ['C08'], (CO, "        assert(  power_ZZ(p, precision) == ZZ_p::modulus() );\n", ""))
m('ps-load-nop', ['C08'], (ND, "        assert( p == (int64_t) zz_p::modulus() );\n", ""))
m('ps-load-noexc', ['C08'], (CO, "        file.exceptions(ifstream::failbit | ifstream::badbit); //a truncated file must not load\n", ""))
m('ps-load-excpart', ['C08'], (CO, "ifstream::failbit | ifstream::badbit", "ifstream::badbit"))
m('ps-load-noabort', ['C08'], (ND, "        cout << \"Could not open \\'\"<<filename<<\"\\'\"<<endl;\n        abort();", "        cout << \"Could not open \\'\"<<filename<<\"\\'\"<<endl;"))
m('ps-load-prec-weak', ['C08'], (CO, "power_ZZ(p, precision) == ZZ_p::modulus()", "power_ZZ(p, precision) <= ZZ_p::modulus()"))
m('ref-ps-helper', [], (SV, "//saves in a very raw way", "static void put(ofstream &o, pair< Vec<int64_t> , Mat<ZZ_p> > *s)\n{\n    o << s->first << endl;\n    o << s->second << \"\\n\";\n}\n//saves in a very raw way"),
  (SV, "            file << solve_pair->first <<endl;\n            file << solve_pair->second <<endl;\n        }", "            put(file, solve_pair);\n        }"), (SV, "        file << n <<endl;\n        file << d <<endl;\n", "        file << n << endl << d << '\\n';\n"))
m('ref-ps-earlyret', [], (SV, "    if(file.is_open() && fileswp.is_open())\n    {\n", "    if(!file.is_open() || !fileswp.is_open())\n    {\n        cout << \"Wasn't able to open \"<<filename<<\" or \"<<fileswpname<<endl;\n        return false;\n    }\n    {\n"),
  (SV, "        return true;\n    }\n    else\n    {\n        cout << \"Wasn't able to open \"<<filename<<\" or \"<<fileswpname<<endl;\n        return false;\n    }", "        return true;\n    }"))
m('ref-ps-rawloop', [], (SV, "        for( i = 0; i < n ; i++)\n        {\n            solve_pair = get_solve_J( (i+1)*d - (n+1) );\n            file << solve_pair->first <<endl;\n            file << solve_pair->second <<endl;\n", "        for(int64_t k = 1; k <= n ; k++)\n        {\n            const pair< Vec<int64_t> , Mat<ZZ_p> > &s = *get_solve_J( k*d - n - 1 );\n            file << s.first <<endl;\n            file << s.second <<endl;\n"))
m('ref-ps-load', [], (CO, "        for(i = 0; i < n; i++)\n        {\n            solve_pair = &( solve_J[(i+1)*d - (n+1)]);\n            file >> solve_pair->first;\n            file >> solve_pair->second;\n", "        for(i = 0; i < n; i++)\n        {\n            const int64_t level = (i+1)*d - (n+1);\n            solve_pair = &( solve_J[level]);\n            file >> solve_pair->first >> solve_pair->second;\n"))
m('ref-ps-flag', [], (SV, "        if(file.fail())\n        {\n            cout << \"Wasn't able to write \"<<filename<<endl;\n            return false;\n        }\n        remove(fileswpname.c_str());\n        return true;", "        const bool good = !file.fail();\n        if(good)\n            remove(fileswpname.c_str());\n        else\n            cout << \"Wasn't able to write \"<<filename<<endl;\n        return good;"))
m('ref-ps-check-if', [], (CO, "        assert( p == (int64_t)  zz_p::modulus() );\n", "        if( p != (int64_t)  zz_p::modulus() )\n            abort();\n"))

ZF, IN = 'wrapper/zeta_function.cc', 'dr/init.cc'
PUSH = "        zz_pPush push(p);\n        ZZ_pPush push2(power_ZZ(p,precision));\n"
m('md-init', ['C04'], (ZF, "zz_pPush push(p);", "zz_p::init(p);"))
m('md-init2', ['C04'], (ZF, "ZZ_pPush push2(power_ZZ(p,precision));", "ZZ_p::init(power_ZZ(p,precision));"))
m('md-unnamed', ['C25'], (ZF, "zz_pPush push(p);", "zz_pPush{p};"))
m('md-static', ['C04'], (ZF, "zz_pPush push(p);", "static zz_pPush push(p);"))
m('md-heap', ['C04'], (ZF, "ZZ_pPush push2(power_ZZ(p,precision));", "ZZ_pPush *push2 = new ZZ_pPush(power_ZZ(p,precision));"))
m('md-precision', ['C25'], (ZF, "push2(power_ZZ(p,precision))", "push2(power_ZZ(p,precision + 1))"))
m('md-precision-abs', ['C25'], (ZF, "push2(power_ZZ(p,precision))", "push2(power_ZZ(p,abs_precision > 0 ? abs_precision : precision))"))
m('md-late', ['C25'], (ZF, "        ZZ_pPush push2(power_ZZ(p,precision));\n", ""), (ZF, "        if(!isSmooth(fp))\n", "        ZZ_pPush push2(power_ZZ(p,precision));\n        if(!isSmooth(fp))\n"))
m('md-isnd-init', ['C04'], (ND, "    D.precision = 1;\n", "    D.precision = 1;\n    ZZ_p::init(ZZ(zz_p::modulus()));\n"))
m('md-manual-leak', ['C04'], (ZF, PUSH, "        zz_pContext c1; ZZ_pContext c2; c1.save(); c2.save();\n        zz_p::init(p);\n        ZZ_p::init(power_ZZ(p,precision));\n"), (ZF, "        zeta = conv<ZZX>(cp);\n", "        zeta = conv<ZZX>(cp);\n        if(lift_charpoly)\n            return;\n        c1.restore();\n        c2.restore();\n"))
m('md-restore-order', ['C04'], (FND, "    #pragma omp parallel for schedule(dynamic)\n    #endif\n    for(int64_t i = 0; i < (int64_t) dR->coKernels_J_basis.length(); i++)", "    ZZ_p::init(power_ZZ(dR->p, dR->precision + 1));\n    #pragma omp parallel for schedule(dynamic)\n    #endif\n    for(int64_t i = 0; i < (int64_t) dR->coKernels_J_basis.length(); i++)"))
m('ref-md-manual', [], (ZF, PUSH, "        zz_pContext c1; ZZ_pContext c2; c1.save(); c2.save();\n        zz_p::init(p);\n        ZZ_p::init(power_ZZ(p,precision));\n"), (ZF, "        zeta = conv<ZZX>(cp);\n", "        zeta = conv<ZZX>(cp);\n        c1.restore();\n        c2.restore();\n"), only=['C04', 'C25'])
m('ref-md-guard', [], (ZF, "void zeta_function(\n", "struct Moduli {\n  zz_pPush a;\n  ZZ_pPush b;\n  Moduli(int64_t p, int64_t e) : a(p), b(power_ZZ(p, e)) {}\n};\n\nvoid zeta_function(\n"), (ZF, PUSH, "        Moduli moduli(p, precision);\n"), only=['C04', 'C25'])
m('ref-md-helper', [], (ZF, "void zeta_function(\n", "static map< Vec<int64_t>, zz_p , vi64less> mod_p(const map< Vec<int64_t>, ZZ, vi64less> &f)\n{\n  map< Vec<int64_t>, zz_p , vi64less> r;\n  for(const auto &x: f)\n    r[x.first] = conv<zz_p>(x.second);\n  return r;\n}\n\nvoid zeta_function(\n"), (ZF, "        map< Vec<int64_t>, zz_p , vi64less> fp;\n        for(map< Vec<int64_t>, ZZ, vi64less>::const_iterator fit = f.begin(); fit != f.end(); ++fit)\n            fp[ fit->first ] = conv<zz_p>(fit->second);\n", "        const map< Vec<int64_t>, zz_p , vi64less> fp = mod_p(f);\n"), only=['C04', 'C25'])
m('ref-md-modulus', [], (ZF, "        zz_pPush push(p);\n        ZZ_pPush push2(power_ZZ(p,precision));\n", "        const ZZ modulus = power_ZZ(p,precision);\n        ZZ_pPush push2(modulus);\n        zz_pPush push(p);\n"), only=['C04', 'C25'])

DC, HC = 'dr/constructors.cc', 'hypersurface/constructors.cc'
import glob
HC = [x[6:] for x in glob.glob('/repo/hypersurface/*.cc') if 'void hypersurface::init_after_dR' in open(x).read()][0]
m('fw-swap-bools', ['C11'], (ZF, "        abs_precision, increase_precision_to_deduce_zeta,\n        find_better_model);", "        abs_precision, find_better_model,\n        increase_precision_to_deduce_zeta);"))
m('fw-swap-ints', ['C11'], (ZF, "      p, verbose, threads,\n      abs_precision,", "      p, verbose, abs_precision,\n      threads,"))
m('fw-const', ['C11'], (ZF, "        p, verbose, threads,\n        abs_precision, increase_precision_to_deduce_zeta,\n        find_better_model);\n}\n\nvoid", "        p, verbose, 1,\n        abs_precision, increase_precision_to_deduce_zeta,\n        find_better_model);\n}\n\nvoid"))
m('fw-threads-cond', ['C11'], (ZF, "    omp_set_num_threads(threads);", "    if(threads > 1) omp_set_num_threads(threads);"))
m('fw-dr-save-memory', ['C11'], (DC, "    init(p, precision, f_map, verbose, save_memory);\n}", "    init(p, precision, f_map, verbose, true);\n}"))
m('fw-dr-swap', ['C11'], (DC, "    init(p, precision, f, verbose, save_memory);\n}\n\nde", "    init(p, precision, f, save_memory, verbose);\n}\n\nde"))
m('fw-nd-precision', ['C11'], (ND, "    init_ND(p, precision, f, verbose, save_memory);\n};", "    init_ND(precision, p, f, verbose, save_memory);\n};"))
m('fw-hs-verbose', ['C11'], (HC, "(p, precision, f, verbose);", "(p, precision, f, false);"))
m('fw-hs-init-after', ['C11'], (HC, "    verbose = dR->verbose;\n", "    verbose = dR->save_memory;\n"))
m('fw-hs-dropped', ['C11'], (HC, "    verbose = dR->verbose;\n", ""))
m('fw-vector-index', ['C11'], (DC, "f_map[ tuple_d[i] ] = f_vector[i];", "f_map[ tuple_d[f_vector.length() - 1 - i] ] = f_vector[i];"))
m('fw-vector-from1', ['C11'], (DC, "for( i = 0; i < (int64_t) fbar_vector.length() ; i++)", "for( i = 1; i < (int64_t) fbar_vector.length() ; i++)"))
m('fw-nd-tuple-args', ['C11'], (ND, "tuple_list_generator(tuple_d, d, (int64_t) (n + 1) );", "tuple_list_generator(tuple_d, n + 1, d );"))
m('fw-monomial-transposed', ['C11'], (ZF, "monomial[j] = monomials[i][j];", "monomial[j] = monomials[j][i];"))
m('fw-N-charpoly', ['C11'], (ZF, "hs.frob_matrix_J(N);", "hs.frob_matrix_J(charpoly_prec);"))
m('fw-dim', ['C11'], (ZF, "charpoly_prec, p, n - 1);", "charpoly_prec, p, n);"))
m('fw-range-short', ['C11'], (ZF, "vector<ZZ>(coefficients.begin(), coefficients.end())", "vector<ZZ>(coefficients.begin() + 1, coefficients.end())"))
m('fw-r-delegating', [], (HC, "hypersurface::hypersurface(int64_t p, int64_t precision, int64_t n, int64_t d, bool verbose) {\n    dR = make_shared<de_Rham_local>(p, precision, n, d, verbose);\n    init_after_dR();\n", "hypersurface::hypersurface(int64_t p, int64_t precision, int64_t n, int64_t d, bool verbose) {\n    shared_ptr<de_Rham_local> x = make_shared<de_Rham_local>(p, precision, n, d, verbose);\n    this->dR = x;\n    this->init_after_dR();\n"))
m('fw-r-loop', [], (DC, "    for( i = 0; i < (int64_t) f_vector.length() ; i++)\n        f_map[ tuple_d[i] ] = f_vector[i];", "    const int64_t total = f_vector.length();\n    for( i = 0; i < total ; ++i) {\n        const Vec<int64_t> &w = tuple_d[i];\n        f_map[ w ] = f_vector[i];\n    }"))
m('fw-r-while', [], (DC, "    for( i = 0; i < (int64_t) f_vector.length() ; i++)\n        f_map[ tuple_d[i] ] = f_vector[i];", "    i = 0;\n    while(i < (int64_t) tuple_d.length()) {\n        f_map.insert(make_pair(tuple_d[i], f_vector[i]));\n        i++;\n    }"))
m('fw-r-static', [], (DC, "//constructors\n", "//constructors\nstatic map< Vec<int64_t>, ZZ_p, vi64less> to_map(const Vec< Vec<int64_t> > &t, const Vec<ZZ_p> &c)\n{\n    map< Vec<int64_t>, ZZ_p, vi64less> r;\n    for(int64_t k = 0; k < (int64_t) c.length(); ++k)\n        r[t[k]] = c[k];\n    return r;\n}\n"), (DC, "    for( i = 0; i < (int64_t) f_vector.length() ; i++)\n        f_map[ tuple_d[i] ] = f_vector[i];\n\n    init(p, precision, f_map,", "    f_map = to_map(tuple_d, f_vector);\n    init(p, precision, f_map,"))
m('fw-r-zeta', [], (ZF, "    zeta_function(zeta, Frob_ZZ, f_map,\n        p,", "    const map< Vec<int64_t>, ZZ, vi64less> &the_map = f_map;\n    const int64_t prime = p;\n    zeta_function(zeta, Frob_ZZ, the_map,\n        prime,"), (ZF, "        Vec<int64_t> monomial;\n        monomial.SetLength(monomials[i].size(), 0);\n", "        const vector<int64_t> &row = monomials[i];\n        Vec<int64_t> monomial;\n        monomial.SetLength(row.size(), 0);\n"), (ZF, "monomial[j] = monomials[i][j];", "monomial[j] = row[j];"))
m('fw-r-thread', [], (ZF, "    omp_set_num_threads(threads);", "    const int nthreads = threads;\n    omp_set_num_threads(nthreads);"))
m('fw-r-ctor-params', [], (DC, "de_Rham_local::de_Rham_local(int64_t p, int64_t precision, map< Vec<int64_t>, ZZ_p, vi64less> f, bool verbose , bool save_memory) {\n    init(p, precision, f, verbose, save_memory);", "de_Rham_local::de_Rham_local(int64_t prime, int64_t digits, map< Vec<int64_t>, ZZ_p, vi64less> eq, bool loud, bool thrifty) {\n    init(prime, digits, eq, loud, thrifty);"))

GS, CF = 'dr/get_solve_J.cc', 'hypersurface/compute_fpow.cc'
m('vb-compute-quiet', ['C12'], (CF, "        if(verbose)\n            cout", "        if(verbose)\n            dR->compute_everything_J();\n        if(verbose)\n            cout"))
m('vb-precision', ['C12'], (DC, "    init(p, precision, f, verbose, save_memory);\n}\n\nde", "    init(p, precision + verbose, f, verbose, save_memory);\n}\n\nde"))
m('vb-print-always', ['C12'], (J, "        if(verbose)\n            cout<<\"Comp", "        cout<<\"Comp"))
m('vb-print-flag', ['C12'], (J, "        if(verbose)\n            cout<<\"Comp", "        if(save_memory)\n            cout<<\"Comp"))
m('vb-inverted', ['C12'], (J, "        if(verbose)\n            cout<<\"Comp", "        if(!verbose)\n            cout<<\"Comp"))
m('vb-skip', ['C12'], (FND, "        if(N[m-1]>0)\n            F[i] = frob_ND(i, N[m-1]);", "        if(N[m-1]>0 && (!verbose || m > 0))\n            F[i] = frob_ND(i, N[m-1]);"))
m('vb-braces', ['C12'], (FND, "        if(verbose)\n            cout<<\"Computing F(\"<<dR->coKernels_J_basis[i]<<\") m = \"<<m<<\" N = \"<<N[m-1]<<endl;\n        if(N[m-1]>0)\n            F[i] = frob_ND(i, N[m-1]);", "        if(verbose)\n            cout<<\"Computing F(\"<<dR->coKernels_J_basis[i]<<\") m = \"<<m<<\" N = \"<<N[m-1]<<endl;\n        else if(N[m-1]>0)\n            F[i] = frob_ND(i, N[m-1]);"))
m('vb-save-memory', ['C12'], ('dr/init.cc', "    this->save_memory = save_memory;", "    this->save_memory = save_memory && !verbose;"))
m('vb-early', ['C12'], (CF, "        if(verbose)\n            cout<< \"compute_fpow(\"<<power<<\")\"<<endl;\n", "        if(!verbose)\n            return;\n        cout<< \"compute_fpow(\"<<power<<\")\"<<endl;\n"))
m('vb-through-local', ['C12'], (FND, "        if(N[m-1]>0)\n            F[i]", "        int64_t extra = 0;\n        if(verbose) extra = 1;\n        if(N[m-1] + extra>0)\n            F[i]"))

m('vb-map-insert', ['C12'], ('wrapper/zeta_function.cc', "        if (verbose)\n            cout << \"Frob = \"<<Frob<<endl;", "        if (verbose)\n            cout << \"Frob = \"<<Frob[0]<<\" c=\"<<(f_ZZp[Vec<int64_t>()])<<endl;"))
m('vb-r-local', [], (J, "        if(verbose)\n            cout<<\"Comp", "        const bool loud = verbose;\n        if(loud && v.length() > 0)\n            cout<<\"Comp"))
m('vb-r-helper', [], (CF, "#include \"hypersurface.h\"", "#include \"hypersurface.h\"\nstatic void report(int64_t power)\n{\n    cout<< \"compute_fpow(\"<<power<<\")\"<<endl;\n}\n"), (CF, "            cout<< \"compute_fpow(\"<<power<<\")\"<<endl;", "            report(power);"))
m('vb-r-helper2', [], (CF, "#include \"hypersurface.h\"", "#include \"hypersurface.h\"\nstatic void report(bool loud, int64_t power)\n{\n    if(!loud)\n        return;\n    cout<< \"compute_fpow(\"<<power<<\")\"<<endl;\n}\n"), (CF, "        if(verbose)\n            cout<< \"compute_fpow(\"<<power<<\")\"<<endl;", "        report(verbose, power);"))
m('vb-r-timer', [], (FND, "        if(verbose)\n        {\n            cout <<\"Computing F(\"", "        if(verbose)\n        {\n            const double w = wall_time;\n            wall_time = w;\n            std::string t = \"x\";\n            t += \"y\";\n            cout <<\"Computing F(\""))
m('vb-r-stream', [], (CF, "            cout<< \"compute_fpow(\"<<power<<\")\"<<endl;", "        {\n            std::ostringstream o;\n            o << \"compute_fpow(\"<<power<<\")\";\n            for(int64_t q = 0; q < 1; ++q)\n                cout << o.str() << endl;\n        }"), (CF, "#include \"hypersurface.h\"", "#include \"hypersurface.h\"\n#include <sstream>\n"))
m('vb-r-rename', [], (CF, "        if(verbose)\n            cout", "        if(verbose == true)\n            cout"))

ZF, DA, SM = 'wrapper/zeta_function.cc', 'tools/default_args.cc', 'dr/isSmooth.cc'
m('gt-smooth-nd-only', ['C10'], (ZF, "        if(!isSmooth(fp))", "        if(!find_better_model && !isSmooth(fp))"))
m('gt-no-abort', ['C10'], (ZF, "            cerr << \"f is not smooth!\" <<endl;\n            abort();", "            cerr << \"f is not smooth!\" <<endl;"))
m('gt-iszero', ['C10'], (ZF, "          if(!IsZero(M)) {", "          if(M.NumRows() > 0) {"))
m('gt-nd-flag', ['C10'], (ZF, "            is_ND = true;\n          } else {", "          } else {\n            is_ND = true;"))
m('gt-nd-always', ['C10'], (ZF, "            is_ND = true;\n          } else {\n            if(verbose) {\n                cout<<\"Wasn't able to find a suitable change of variables to make it non degenerate!\"<<endl;\n            }\n          }\n\n        }", "          } else {\n            if(verbose) {\n                cout<<\"Wasn't able to find a suitable change of variables to make it non degenerate!\"<<endl;\n            }\n          }\n          is_ND = true;\n        }"))
m('gt-forget-change', ['C10'], (ZF, "            f_ZZp = change_of_variables<ZZ_p>(f_ZZp, M_ZZ_p);\n", ""))
m('gt-search-noclear', ['C10'], ('dr_nd/dr_nd.cc', "    if(not_nd)\n    {\n        clear(M);\n    }\n    return M;", "    return M;"))
m('gt-search-cond', ['C10'], ('dr_nd/dr_nd.cc', "    if(not_nd)\n    {\n        clear(M);\n    }\n    return M;", "    if(i == N)\n    {\n        clear(M);\n    }\n    return M;"))
m('gt-search-order', ['C10'], ('dr_nd/dr_nd.cc', "        M = random_SL_matrix(n);\n        new_f = change_of_variables<zz_p>(f, M);\n        not_nd = !( isND(new_f) );\n", "        new_f = change_of_variables<zz_p>(f, M);\n        not_nd = !( isND(new_f) );\n        M = random_SL_matrix(n);\n"))
m('gt-search-old', ['C10'], ('dr_nd/dr_nd.cc', "        not_nd = !( isND(new_f) );", "        not_nd = !( isND(f) );"))
m('gt-test-degree', ['C10'], (SM, "(D.d-2)*(D.n+1) + 1", "(D.d-2)*(D.n+1)"))
m('gt-test-degree-nd', ['C10'], ('dr_nd/dr_nd.cc', "D.matrix_ND(M, (D.d-1)*(D.n+1) + 1 )", "D.matrix_ND(M, (D.d-2)*(D.n+1) + 1 )"))
m('gt-test-verdict', ['C10'], (SM, "M.NumRows() == nmod_mat_lu", "M.NumRows() >= nmod_mat_lu"))
m('gt-test-cols', ['C10'], (SM, "bool (M.NumRows() == nmod_mat_lu", "bool (M.NumCols() == nmod_mat_lu"))
m('gt-test-copy', ['C10'], (SM, "        for(j = 0; j < (int64_t) M.NumCols(); j++)", "        for(j = 1; j < (int64_t) M.NumCols(); j++)"))
m('gt-row-noprec', ['C10'], (DA, "\t\t\tprecision = 5;\n\t\t\tbuffer << \"[3 3]", "\t\t\tbuffer << \"[3 3]"))
m('gt-r-first', [], (ZF, "        if(!isSmooth(fp))\n        {\n            cerr << \"f is not smooth!\" <<endl;\n            abort();\n        }\n        bool is_ND = isND(fp);", "        const bool smooth = isSmooth(fp);\n        const bool nd0 = isND(fp);\n        if(smooth == false)\n        {\n            cerr << \"f is not smooth!\" <<endl;\n            abort();\n        }\n        bool is_ND = nd0;"))
m('gt-r-helper', [], (ZF, "void zeta_function(\n    ZZX &zeta, // the zeta function\n    Mat<ZZ> &Frob_ZZ, // the Frobenius matrix\n    const map<", "static void require_smooth(const map< Vec<int64_t>, zz_p, vi64less> &fp)\n{\n    if(isSmooth(fp))\n        return;\n    cerr << \"f is not smooth!\" <<endl;\n    abort();\n}\n\nvoid zeta_function(\n    ZZX &zeta, // the zeta function\n    Mat<ZZ> &Frob_ZZ, // the Frobenius matrix\n    const map<"), (ZF, "        if(!isSmooth(fp))\n        {\n            cerr << \"f is not smooth!\" <<endl;\n            abort();\n        }\n", "        require_smooth(fp);\n"))
m('gt-r-search', [], ('dr_nd/dr_nd.cc', "    i = 0;\n    while( i < N && not_nd)\n    {\n        M = random_SL_matrix(n);\n        new_f = change_of_variables<zz_p>(f, M);\n        not_nd = !( isND(new_f) );\n        i++;\n    }\n\n    if(not_nd)\n    {\n        clear(M);\n    }\n    return M;", "    if(!not_nd)\n        return M;\n    for(i = 0; i < N; ++i)\n    {\n        M = random_SL_matrix(n);\n        new_f = change_of_variables<zz_p>(f, M);\n        if( isND(new_f) )\n            return M;\n    }\n    clear(M);\n    return M;"))
m('gt-r-search2', [], ('dr_nd/dr_nd.cc', "    while( i < N && not_nd)\n    {", "    for(; i < N; )\n    {\n        if(!not_nd) break;"))
m('gt-r-nested', [], (ZF, "        if( is_ND )\n        {", "        if( is_ND == true )\n        {"))
m('gt-r-lu', [], (SM, "    result = bool (M.NumRows() == nmod_mat_lu(P, M_flint, false));", "    const int64_t rank = nmod_mat_lu(P, M_flint, false);\n    result = (rank == M.NumRows());"))

m('da-prec', ['C15'], (DA, "precision = 12;\n\t\t\tbuffer << \"[6 6]", "precision = 11;\n\t\t\tbuffer << \"[6 6]"))
m('da-trunc', ['C15'], (DA, "[6 6]\\n[10 9", "[6 5]\\n[10 9"))
m('da-digits', ['C15'], (DA, "[9 8 7 6 5 4 4 4 4 4 4 4 4]\";\n\t\t} else if ( 7 <= p  ) {", "[9 8 7 6 5 4 3 3 3 3 3 3 3]\";\n\t\t} else if ( 7 <= p  ) {"))
m('da-length', ['C15'], (DA, "[5 4 3 3 3 3 3]", "[5 4 3 3 3 3]"))
m('da-gap', ['C15', 'C10'], (DA, "\t\t} else if ( 7 <= p  ) {\n\t\t\tprecision = 7;", "\t\t} else if ( 11 <= p  ) {\n\t\t\tprecision = 7;"))
m('da-threshold', ['C15'], (DA, "if ( p < 5) {\n\t\t\tprecision = 7;\n\t\t\tbuffer << \"[4 4]\\n[5 4 3 3 3 3 3]\";\n\t\t} else if ( 5 <= p && p < 17 ) {", "if ( p < 3) {\n\t\t\tprecision = 7;\n\t\t\tbuffer << \"[4 4]\\n[5 4 3 3 3 3 3]\";\n\t\t} else if ( 3 <= p && p < 17 ) {"))
m('da-threshold2', ['C15'], (DA, "} else if ( 5 <= p && p < 17 ) {\n\t\t\tprecision = 3;\n\t\t\tbuffer << \"[2 2]\\n[2 2 2]\";\n\t\t} else if ( 17 <= p  ) {", "} else if ( 5 <= p && p < 11 ) {\n\t\t\tprecision = 3;\n\t\t\tbuffer << \"[2 2]\\n[2 2 2]\";\n\t\t} else if ( 11 <= p  ) {"))
m('da-r-more', [], (DA, "precision = 12;\n\t\t\tbuffer << \"[6 6]", "precision = 13;\n\t\t\tbuffer << \"[6 7]"))
m('da-r-cond', [], (DA, "\t\t} else if ( 5 <= p && p < 17 ) {\n\t\t\tprecision = 3;", "\t\t} else if ( p <= 16 ) {\n\t\t\tprecision = 3;"))
m('da-r-order', [], (DA, "\t\t\tprecision = 12;\n\t\t\tbuffer << \"[6 6]\\n[10 9 8 7 6 5 5 5 5 5 5 5 5]\";", "\t\t\tbuffer << \"[6 6]\\n\";\n\t\t\tprecision = 12;\n\t\t\tbuffer << \"[10 9 8 7 6 5 5 5 5 5 5 5 5]\";"))

m('ap-trunc', ['C30'], (ZF, "            N[i] = r_vector[i] + n - (i + 1);\n            precision", "            N[i] = r_vector[i] + n - (i + 2);\n            precision"))
m('ap-rel', ['C30'], (ZF, "int relative_prec = abs_precision - (n - 1) + i;", "int relative_prec = abs_precision - n + i;"))
m('ap-max', ['C30'], (ZF, "            precision = max(precision, r_vector[i] + max(int64_t(0), valuation_of_factorial(p * (i + N[i]) - 1, p) - i));\n          }\n        }", "            precision = r_vector[i] + max(int64_t(0), valuation_of_factorial(p * (i + N[i]) - 1, p) - i);\n          }\n        }"))
m('ap-val', ['C30'], (ZF, "          precision = max(precision, r_vector[i] + max(int64_t(0), valuation_of_factorial(p * (i + N[i]) - 1, p) - i));\n        }", "          precision = max(precision, r_vector[i] + max(int64_t(0), valuation_of_factorial(p * N[i] - 1, p) - i));\n        }"))
m('ap-range', ['C30'], (ZF, "        for(int64_t i = 0; i < n; ++i) {\n          // the columns", "        for(int64_t i = 1; i < n; ++i) {\n          // the columns"))
m('ap-lift', ['C30'], (ZF, "lift_charpoly = lift_charpoly && (relative_prec >= r_vector[i]);", "lift_charpoly = (relative_prec >= r_vector[i]);"))
m('ap-lift2', ['C30'], (ZF, "lift_charpoly && (relative_prec >= r_vector[i])", "lift_charpoly && (relative_prec >= 0)"))
m('ap-lift3', ['C30'], (ZF, "        if(lift_charpoly) {", "        if(lift_charpoly || find_better_model) {"))
m('ap-reduce', ['C30'], (ZF, "            cp[i] %= p_abs_precision;", "            if(verbose) cp[i] %= p_abs_precision;"))
m('ap-reduce2', ['C30'], (ZF, "power_ZZ(p, abs_precision)", "power_ZZ(p, precision)"))
m('ap-small', ['C30'], (ZF, "if( p < 2*n + max(r_vector) ) {", "if( p < 2*n ) {"))
m('ap-zero', ['C30'], (ZF, "if(relative_prec <= 0) {", "if(relative_prec <= 1) {"))
m('ap-r-temp', [], (ZF, "            precision = max(precision, r_vector[i] + max(int64_t(0), valuation_of_factorial(p * (i + N[i]) - 1, p) - i));\n          }\n        }", "            const int64_t v = valuation_of_factorial(p * (i + N[i]) - 1, p);\n            const int64_t need = r_vector[i] + max(v - i, int64_t(0));\n            precision = max(need, precision);\n          }\n        }"))
m('ap-r-if', [], (ZF, "            precision = max(precision, r_vector[i] + max(int64_t(0), valuation_of_factorial(p * (i + N[i]) - 1, p) - i));\n          }\n        }", "            const int64_t need = r_vector[i] + max(int64_t(0), valuation_of_factorial(p * (i + N[i]) - 1, p) - i);\n            if(need > precision)\n              precision = need;\n          }\n        }"))
m('ap-r-flag', [], (ZF, "lift_charpoly = lift_charpoly && (relative_prec >= r_vector[i]);", "if(relative_prec < r_vector[i]) lift_charpoly = false;"))
m('ap-r-while', [], (ZF, "        for(int64_t i = 0; i < n; ++i) {\n          r_vector[i] = max(", "        for(int64_t i = n - 1; i >= 0; --i) {\n          r_vector[i] = max("))

CPF, CP, BI, GPI, HND = 'matrix/charpoly_frob.cc', 'matrix/charpoly.cc', 'tools/binomial.cc', 'tools/geometric_picard.cc', 'hypersurface_nd/hypersurface_nd.cc'
m('ex-drop', ['C14'], (CPF, "            assert(IsZero(rem));\n            cp[degree - i] =", "            cp[degree - i] ="))
m('ex-drop2', ['C14'], (CPF, "        assert(IsZero(rem));\n        cp[degree - k]", "        cp[degree - k]"))
m('ex-plain', ['C14'], (CPF, "DivRem(e[k], rem, sum + ( (k%2 == 0)? -s[k] : s[k] ) , ZZ( k ));", "e[k] = (sum + ( (k%2 == 0)? -s[k] : s[k] )) / k;"))
m('ex-div', ['C14'], (CPF, "DivRem(e[k], rem, sum + ( (k%2 == 0)? -s[k] : s[k] ) , ZZ( k ));", "div(e[k], sum + ( (k%2 == 0)? -s[k] : s[k] ) , ZZ( k ));"))
m('ex-cp', ['C14'], (CP, "        assert(rem == 0);\n", ""))
m('ex-cond', ['C14'], (CP, "        assert(rem == 0);\n", "        if(k > 1) assert(rem == 0);\n"))
m('ex-frob', ['C14'], (HND, "            assert( IsZero(remainder) );\n            F[i] = to_ZZ_p(tmp);\n        }\n    }\n\n    return F;\n}\n\nVec<ZZ_p> hypersurface_non_degenerate::frob_ND_ZZ_p", "            F[i] = to_ZZ_p(tmp);\n        }\n        assert( IsZero(remainder) );\n    }\n\n    return F;\n}\n\nVec<ZZ_p> hypersurface_non_degenerate::frob_ND_ZZ_p"))
m('ex-wrong', ['C14'], ('hypersurface/frob_J_ZZ.cc', "            assert( IsZero(remainder) );", "            assert( !IsZero(tmp) || IsZero(rep(F[i])) );"))
m('ex-binom', ['C14'], (BI, "    for(int64_t i = 1; i <= n - k; ++i)", "    for(int64_t i = 1; i <= k; ++i)"))
m('ex-picard', ['C14'], (GPI, "        if( !fmpz_is_zero(rem) )\n        {\n            //polynomial is not integral after the change of variables\n            result = 0;\n            resultQ = true;\n            break;\n        }\n", ""))
m('ex-picard2', ['C14'], (GPI, "        if( !fmpz_is_zero(rem) )", "        if( fmpz_is_zero(rem) )"))
m('ex-r-abort', [], (CPF, "            assert(IsZero(rem));\n            cp[degree - i] =", "            if(!IsZero(rem))\n                abort();\n            cp[degree - i] ="))
m('ex-r-eq', [], (CPF, "            assert(IsZero(rem));\n            cp[degree - i] =", "            assert(rem == 0);\n            cp[degree - i] ="))
m('ex-r-helper', [], (CPF, "Vec<ZZ> charpoly_frob(", "static void exact(ZZ &q, const ZZ &a, const ZZ &b)\n{\n    ZZ r;\n    DivRem(q, r, a, b);\n    assert(IsZero(r));\n}\n\nVec<ZZ> charpoly_frob("), (CPF, "        DivRem(e[k], rem, sum + ( (k%2 == 0)? -s[k] : s[k] ) , ZZ( k ));\n        assert(IsZero(rem));\n", "        exact(e[k], sum + ( (k%2 == 0)? -s[k] : s[k] ) , ZZ( k ));\n"))
m('ex-r-tmp', [], (CP, "        rem = DivRem(e[k], sump - sumn, k);\n        assert(rem == 0);", "        const int64_t left = DivRem(e[k], sump - sumn, k);\n        rem = left;\n        assert(!(rem != 0));"))
m('ex-r-binom', [], (BI, "    for(int64_t i = 1; i <= n - k; ++i)\n    {\n        den *=i;\n    }\n", "    int64_t j = n - k;\n    while(j >= 1)\n    {\n        den *= j;\n        --j;\n    }\n"))
m('ex-r-flag', [], (GPI, "        if( !fmpz_is_zero(rem) )\n        {", "        const bool integral = fmpz_is_zero(rem);\n        if( !integral )\n        {"))
MU, MT, TM, VI, CV, CH, MH, TH, TR = 'matrix/mul.cc', 'matrix/mul_tranpose.cc', 'matrix/transpose_mul_tranpose.cc', 'vec_int64.h', 'conv/conv.cc', 'conv.h', 'matrix.h', 'tools.h', 'matrix/trace.cc'
m('ke-stride', ['C31'], (MU, "B[k*colsB + j]", "B[k*rowsB + j]"))
m('ke-stride2', ['C31'], (CV, "A[i*colsB+j]", "A[i*rowsB+j]"))
m('ke-short', ['C31'], (MU, "for(j = 1; j < ac; j++)", "for(j = 1; j < ac - 1; j++)"))
m('ke-len', ['C31'], (MU, "    for(i = 1; i < len; ++i)", "    for(i = 2; i < len; ++i)"))
m('ke-trans', ['C31'], (TM, "result(j,i) =", "result(i,j) ="))
m('ke-dims', ['C31'], (TM, "result.SetDims(colsB,rowsA);", "result.SetDims(rowsA,colsB);"))
m('ke-mt-k', ['C31'], (MT, "for(k = 1; k <= rowsB; k++)", "for(k = 1; k < rowsB; k++)"))
m('ke-mt-clear', ['C31'], (MT, "            clear(acc);\n", ""))
m('ke-vec-sub', ['C31'], (VI, "res[i] = v[i] - w[i];", "res[i] = w[i] - v[i];"))
m('ke-vec-mat', ['C31'], (VI, "res.SetLength(A.NumRows());", "res.SetLength(A.NumCols());"))
m('ke-vec-dot', ['C31'], (VI, "    res = 0;\n", ""))
m('ke-conv-sign', ['C31'], (CV, "if( sign(b) == -1)", "if( sign(b) == 1)"))
m('ke-conv-nosign', ['C31'], (CV, "    if(mpz_sgn(b) == -1)\n        a = -a;\n", ""))
m('ke-conv-size', ['C31'], (CV, "(mpz_sizeinbase( b , 2) + 7) / 8", "mpz_sizeinbase( b , 2) / 8"))
m('ke-conv-bytes', ['C31'], (CV, "long n = NumBytes(b);", "long n = NumBytes(b) - 1;"))
m('ke-conv-order', ['C31'], (CV, "mpz_import(a, n, -1, 1, 1, 0, bytes);", "mpz_import(a, n, 1, 1, 1, 0, bytes);"))
m('ke-conv-mod', ['C31'], (CH, "NTL::conv<ulong>(rep(B[i][j]) % A->mod.n )", "NTL::conv<ulong>(rep(B[i][j]))"))
m('ke-conv-swap', ['C31'], (CH, "conv(fmpz_mat_entry(A, i, j), NTL::conv<NTL::ZZ>(B[i][j]));", "conv(fmpz_mat_entry(A, j, i), NTL::conv<NTL::ZZ>(B[i][j]));"))
m('ke-conv-short', ['C31'], (CH, "    for(int64_t i = 0; i < len; ++i) {\n        conv(tmp, b + i);", "    for(int64_t i = 0; i + 1 < len; ++i) {\n        conv(tmp, b + i);"))
m('ke-nmodsub', ['C31'], (MH, "nmod_mat_row_srcptr(A, i),\n                      nmod_mat_row_srcptr(B, i)", "nmod_mat_row_srcptr(B, i),\n                      nmod_mat_row_srcptr(A, i)"))
m('ke-nmoddot', ['C31'], (MH, "acc = nmod_add(acc, nmod_mul(v1[i], v2[i], mod), mod);", "acc = nmod_mul(v1[i], v2[i], mod);"))
m('ke-trace', ['C31'], (TR, "M[i][i]", "M[i][0]"))
m('ke-max', ['C31'], (TH, "        if(v[i] > m)\n            m = v[i];", "        if(v[i] > v[0])\n            m = v[i];"))
m('ke-max2', ['C31'], (TH, "for(int64_t i = 1; i < v.length(); ++i)\n        if", "for(int64_t i = 2; i < v.length(); ++i)\n        if"))
m('ke-fact', ['C31'], (TH, "for (int64_t i = start; i <=n ; ++i)", "for (int64_t i = start; i < n ; ++i)"))
m('ke-binom', ['C31'], (BI, "for(int64_t i = k + 1; i <= n; ++i)", "for(int64_t i = k; i <= n; ++i)"))
m('ke-diff', ['C31'], ('vec_int64/diff.cc', "--r[i];", "--r[i]; r[0] = v[0];"))
m('ke-r-loop', [], (MU, "    for(i = 0; i < u_length; ++i)\n    {\n        mpz_mul(tmp,u[i],v[i]);\n        mpz_add(result, result, tmp);\n    }", "    i = u_length;\n    while(i > 0)\n    {\n        --i;\n        mpz_addmul(result, v[i], u[i]);\n    }"), only=['C31', 'C05'])
m('ke-r-trace', [], (TR, "    for(int64_t i = 0; i < M.NumRows(); ++i)\n        result += M[i][i];", "    const int64_t n = M.NumCols();\n    for(int64_t i = n; i >= 1; --i)\n        result = M(i, i) + result;"), only=['C31'])
m('ke-r-mt', [], (MT, "            clear(acc);\n            for(k = 1; k <= rowsB; k++)\n            {\n                mul(tmp,rep(A(i,k)),rep(B(j,k)));\n                add(acc,acc,tmp);\n            }", "            acc = 0;\n            for(k = 0; k < colsA; k++)\n            {\n                acc += rep(B[j-1][k]) * rep(A[i-1][k]);\n            }"), only=['C31'])
m('ke-r-conv', [], (CV, "    if( sign(b) == -1)", "    const bool negative = sign(b) < 0;\n    if( negative )"), (CV, "new unsigned char[n];\n    BytesFromZZ", "new unsigned char[n + 1];\n    BytesFromZZ"), only=['C31', 'C05'])
m('ke-r-max', [], (TH, "        if(v[i] > m)\n            m = v[i];", "        m = (m < v[i]) ? v[i] : m;"), only=['C31'])
m('ke-r-add', [], (VI, "    for (int64_t i = 0; i < v.length(); ++i)\n        res[i] = v[i] + w[i];", "    int64_t i = v.length() - 1;\n    for (; i >= 0; --i) {\n        const int64_t s = w[i] + v[i];\n        res[i] = s;\n    }"), only=['C31'])
m('ke-r-helper', [], (MT, "template <>\nvoid mul_transpose<ZZ_p>", "static void dot_rows(ZZ &acc, const Vec<ZZ_p> &a, const Vec<ZZ_p> &b)\n{\n    clear(acc);\n    for(int64_t k = 0; k < a.length(); ++k)\n        acc += rep(a[k]) * rep(b[k]);\n}\n\ntemplate <>\nvoid mul_transpose<ZZ_p>"), (MT, "            clear(acc);\n            for(k = 1; k <= rowsB; k++)\n            {\n                mul(tmp,rep(A(i,k)),rep(B(j,k)));\n                add(acc,acc,tmp);\n            }", "            dot_rows(acc, A(i), B(j));"), only=['C31'])
m('ke-r-fmpz', [], (MU, "        fmpz_mul(result + i,fmpz_mat_entry(A, i, 0), v);\n        for(j = 1; j < ac; j++)", "        fmpz_zero(result + i);\n        for(j = 0; j < ac; j++)"), only=['C31'])

# ---------------------------------------------------------------- C17 tables filled on demand
DZ, DN, GI, CI, GF, GS = 'dr/compute_reduction_matrix_J_ZZ.cc', 'dr_nd/dr_nd.cc', 'dr/get_inclusion_matrix_J.cc', 'dr/compute_inclusion_matrix_J.cc', 'dr/get_final_reduction_matrix_J.cc', 'dr/get_solve_J.cc'
CJ = 'dr/compute_reduction_matrix_J.cc'
m('me-erase-always', ['C17'], (DZ, "            if( save_memory )\n", ""))
m('me-erase-present', ['C17'], (DN, "        if( !existQ && save_memory )\n            reduction_matrix_ND_dict.erase(v);", "        if( save_memory )\n            reduction_matrix_ND_dict.erase(v);"))
m('me-erase-early', ['C17'], (DN, "        for(it_result = (it->second).begin(); it_result != (it->second).end(); it_result++)\n            conv(reduction_matrix_ND_poly_ZZ_dict[v][it_result->first], it_result->second);\n\n        if( !existQ && save_memory )\n            reduction_matrix_ND_poly_dict.erase(v);\n", "        if( !existQ && save_memory )\n            reduction_matrix_ND_poly_dict.erase(v);\n        for(it_result = (it->second).begin(); it_result != (it->second).end(); it_result++)\n            conv(reduction_matrix_ND_poly_ZZ_dict[v][it_result->first], it_result->second);\n"))
m('me-erase-own', ['C17'], (DN, "        if( !existQ && save_memory )\n            reduction_matrix_ND_dict.erase(v);\n\n        return reduction_matrix_ND_ZZ_dict.find(v);", "        if( !existQ && save_memory )\n            reduction_matrix_ND_dict.erase(v);\n        if( save_memory && result_zz.empty() )\n            reduction_matrix_ND_ZZ_dict.erase(v);\n        return reduction_matrix_ND_ZZ_dict.find(v);"))
m('me-wrong-table', ['C17'], (DN, "        return reduction_matrix_ND_poly_dict.find(v);", "        return reduction_matrix_ND_dict.find(v);"))
m('me-wrong-lookup', ['C17'], (DN, "    it = reduction_matrix_ND_poly_dict.find(v);\n    if( it != reduction_matrix_ND_poly_dict.end() )\n        return it;", "    it = reduction_matrix_ND_dict.find(v);\n    if( it != reduction_matrix_ND_dict.end() )\n        return it;"))
m('me-level', ['C17'], (DN, "    return &( (it->second)[l] );", "    return &( (inclusion_matrix_ND_dict.begin()->second)[l] );"))
m('me-key', ['C17'], (CI, "    M = &(inclusion_matrix_J_dict[u]);", "    Vec<int64_t> uu = u;\n    if( uu[n] > 1 ) { uu[n]--; uu[0]++; }\n    M = &(inclusion_matrix_J_dict[uu]);"))
m('me-near', ['C17'], (GI, "    it = inclusion_matrix_J_dict.find(u);\n    if(", "    it = inclusion_matrix_J_dict.lower_bound(u);\n    if("))
m('me-overwrite', ['C17'], (GI, "    it = inclusion_matrix_J_dict.find(u);\n    if( it == inclusion_matrix_J_dict.end() )\n", "    it = inclusion_matrix_J_dict.find(u);\n    if( it == inclusion_matrix_J_dict.end() || save_memory )\n"), (CI, "    assert( inclusion_matrix_J_dict.find(u) == inclusion_matrix_J_dict.end() );\n", ""))
m('me-solve', ['C17'], (GS, "    return &(solve_J[ level ]);", "    return &(solve_J.rbegin()->second);"))
m('me-solve2', ['C17'], (GS, "    it = solve_J.find(level);\n    if( it != solve_J.end() )", "    it = solve_J.find(level);\n    if( it == solve_J.end() and save_memory )\n        it = solve_J.lower_bound(level);\n    if( it != solve_J.end() )"))
m('me-conv-skip', ['C17'], (DN, "            result_zz[it_result->first] = conv< Mat<ZZ> >(it_result->second);", "            if( it_result->first[0] > 0 || !save_memory )\n            result_zz[it_result->first] = conv< Mat<ZZ> >(it_result->second);"))
m('me-conv-other', ['C17'], (DZ, "            reduction_matrix_J_ZZ_dict[v] = conv< Vec< Mat<ZZ> > >(it->second);\n\n", "            reduction_matrix_J_ZZ_dict[v] = conv< Vec< Mat<ZZ> > >(reduction_matrix_J_dict.begin()->second);\n\n"))
m('me-final-i', ['C17'], (GF, "        i = final_reduction_matrix_J_dict.length() + 1;", "        i = final_reduction_matrix_J_dict.length() + (save_memory ? 2 : 1);"))
m('me-final-ret', ['C17'], (GF, "    return &(final_reduction_matrix_J_dict[k-1]);", "    return &(final_reduction_matrix_J_dict[final_reduction_matrix_J_dict.length()-1]);"))
m('me-final-shrink', ['C17'], (GF, "    if( k > (int64_t)final_reduction_matrix_J_dict.length() )", "    if( k != (int64_t)final_reduction_matrix_J_dict.length() )"))
m('me-clear', ['C17'], (GI, "        compute_inclusion_matrix_J(u);", "        if( save_memory )\n            inclusion_matrix_J_dict.clear();\n        compute_inclusion_matrix_J(u);"))
m('me-samekey', ['C17'], (DN, "        if(!existQ)\n            it = compute_reduction_matrix_ND_poly(v);", "        Vec<int64_t> vv = v;\n        if( v[0] > v[n] ) { vv[0] = v[n]; vv[n] = v[0]; }\n        if(!existQ)\n            it = compute_reduction_matrix_ND_poly(vv);"))
m('me-r-count', [], (GI, "    it = inclusion_matrix_J_dict.find(u);\n    if( it == inclusion_matrix_J_dict.end() )", "    if( inclusion_matrix_J_dict.count(u) == 0 )"), (GI, "        it = inclusion_matrix_J_dict.find(u);\n        assert( it !=  inclusion_matrix_J_dict.end() ); \n    }\n", "    }\n    it = inclusion_matrix_J_dict.find(u);\n    assert( it !=  inclusion_matrix_J_dict.end() );\n"))
m('me-r-early', [], (DZ, "            it = compute_reduction_matrix_J(v);\n            reduction_matrix_J_ZZ_dict[v] = conv< Vec< Mat<ZZ> > >(it->second);\n            if( save_memory )", "            it = compute_reduction_matrix_J(v);\n            Vec< Mat<ZZ> > &dst = reduction_matrix_J_ZZ_dict[v];\n            dst = conv< Vec< Mat<ZZ> > >(it->second);\n            if( save_memory )"))
m('me-r-flat', [], (DZ, "        it = reduction_matrix_J_dict.find(v);\n        if( it == reduction_matrix_J_dict.end() )\n        {", "        it = reduction_matrix_J_dict.find(v);\n        const bool had = it != reduction_matrix_J_dict.end();\n        if( !had )\n        {"))
m('me-r-ref', [], (CI, "    M = &(inclusion_matrix_J_dict[u]);", "    Mat<ZZ_p> &fresh_entry = inclusion_matrix_J_dict[u];\n    M = &fresh_entry;"))
m('me-r-while', [], (GF, "        i = final_reduction_matrix_J_dict.length() + 1;\n        final_reduction_matrix_J_dict.SetLength(k);\n        for(  ; i <= k ; i++)\n", "        const int64_t old = final_reduction_matrix_J_dict.length();\n        final_reduction_matrix_J_dict.SetLength(k);\n        for( i = old + 1 ; i < k + 1 ; ++i)\n"))
m('me-r-range', [], (DN, "        for(it_result = (it->second).begin(); it_result != (it->second).end(); it_result++)\n            result_zz[it_result->first] = conv< Mat<ZZ> >(it_result->second);", "        for(const auto &entry : it->second)\n            result_zz[entry.first] = conv< Mat<ZZ> >(entry.second);"))
m('me-r-else', [], (DN, "    it = reduction_matrix_ND_dict.find(v);\n    if( it != reduction_matrix_ND_dict.end() )\n        return it;\n    else\n    {", "    it = reduction_matrix_ND_dict.find(v);\n    const bool known = it != reduction_matrix_ND_dict.end();\n    if( known )\n        return it;\n    {"))
m('me-r-insert', [], (DN, "    result = &inclusion_matrix_ND_dict[u];", "    result = &inclusion_matrix_ND_dict.insert(make_pair(u, Vec< Mat<ZZ_p> >())).first->second;"))

# ---------------------------------------------------------------- C18 terms with the same exponent
FP, TL, CM, FJ, FZ, HN = 'hypersurface/compute_fpow.cc', 'tools.h', 'tools/change_of_variables_monomial.cc', 'hypersurface/frob_J_ZZ_p.cc', 'hypersurface/frob_J_ZZ.cc', 'hypersurface_nd/hypersurface_nd.cc'
m('ga-frob-replace', ['C18'], (FJ, "                    Hnewit->second += G;", "                    Hnewit->second = G;"))
m('ga-frob-drop', ['C18'], (FZ, "                    else\n                        Hnewit->second += G_ZZ_p;", ""))
m('ga-frob-always', ['C18'], (HN, "                    if( Hnewit == Hnew.end() )\n                        Hnew[final_dest] = G_ZZ_p;\n                    else\n                        Hnewit->second += G_ZZ_p;", "                    Hnew[final_dest] = G_ZZ_p;"))
m('ga-frob-clear', ['C18'], (FJ, "        Hnew.clear();\n", ""))
m('ga-frob-clear-once', ['C18'], (FJ, "        Hnew.clear();\n", "        if( e == m + N - 1 )\n            Hnew.clear();\n"))
m('ga-frob-insert', ['C18'], (FJ, "                    Hnew[y] = G;", "                    Hnew.insert(make_pair(y, G));"), (FJ, "                else\n                    Hnewit->second += G;\n", ""))
m('ga-fpow-k', ['C18'], (FP, "                        itY->second += itfkminus1->second * itf->second;", "                        itY->second += itfkminus1->second * itfkminus1->second;"))
m('ga-fpow-skip', ['C18'], (FP, "                    u = itfkminus1->first + itf->first;", "                    if( IsOne(itf->second) and k > 2 )\n                        continue;\n                    u = itfkminus1->first + itf->first;"))
m('ga-fpow-set', ['C18'], (FP, "                        itY->second += itfkminus1", "                        itY->second = itfkminus1"))
m('ga-fpow-start', ['C18'], (FP, "            map< Vec<int64_t>, ZZ_p, vi64less> Y;\n", ""), (FP, "        Vec<int64_t> u;\n", "        Vec<int64_t> u;\n        map< Vec<int64_t>, ZZ_p, vi64less> Y;\n"))
m('ga-cov-set', ['C18'], (TL, "                itresult->second += itH->second;", "                itresult->second = itH->second;"))
m('ga-cov-pow', ['C18'], (TL, "for (int64_t j = 0; j < itf->first[i]; ++j) {", "for (int64_t j = 0; j < itf->first[i] && !H.empty() && j < 8; ++j) {"))
m('ga-cov-row', ['C18'], (TL, "            Mvec[i][X[j]] = M[i][j];", "            Mvec[i][X[j]] = M[j][i];"))
m('ga-cov-clear', ['C18'], (TL, "                Hnew.clear();\n", ""))
m('ga-mono-binom', ['C18'], (CM, "binomial(u[i], j) * power_long( v[i],  j)", "binomial(u[i], j) * power_long( v[i],  u[i] - j)"))
m('ga-mono-exp', ['C18'], (CM, "            tmp_monomial[n] = j;", "            tmp_monomial[n] = (j > 3) ? 3 : j;"))
m('ga-mono-upto', ['C18'], (CM, "j <= u[i] ; ++j", "j < u[i] ; ++j"))
m('ga-mono-set', ['C18'], (CM, "                    itHnew->second += itH", "                    itHnew->second = itH"))
m('ga-nd-replace', ['C18'], (DN, "                            (*Hnew_Ui)[ coordinate_of_monomial_of_Fi] += F", "                            (*Hnew_Ui)[ coordinate_of_monomial_of_Fi] = F"))
m('ga-nd-poly', ['C18'], (DN, "                   it_result->second += it_monomial->second * it_matrix->second;", "                   it_result->second = it_monomial->second * it_matrix->second;"))
m('ga-nd-poly-drop', ['C18'], (DN, "               if( sum == n+1)\n", "               if( it_monomial->second > 100 )\n                    continue;\n               if( sum == n+1)\n"))
m('ga-r-op', [], (FP, "                    itY = Y.find(u);\n                    if( itY == Y.end() )\n                    {\n                        Y[u] = itfkminus1->second * itf->second;\n                    }\n                    else\n                    {\n                        itY->second += itfkminus1->second * itf->second;\n                    }", "                    Y[u] += itf->second * itfkminus1->second;"), only=['C18'])
m('ga-r-tmp', [], (FP, "                    itY = Y.find(u);\n", "                    const ZZ_p t = itfkminus1->second * itf->second;\n                    itY = Y.find(u);\n"), (FP, "Y[u] = itfkminus1->second * itf->second;", "Y[u] = t;"), (FP, "itY->second += itfkminus1->second * itf->second;", "itY->second += t;"), only=['C18'])
m('ga-r-clear-end', [], (FJ, "        Hnew.clear();\n", ""), (FJ, "        H.swap(Hnew);", "        H.swap(Hnew);\n        Hnew.clear();"), only=['C18'])
m('ga-r-emplace', [], (TL, "            itresult = result.find(itH->first);\n            if (itresult == result.end() )\n                result[itH->first] = itH->second;\n            else\n                itresult->second += itH->second;", "            if (result.find(itH->first) == result.end())\n                result.emplace(itH->first, itH->second);\n            else\n                result[itH->first] += itH->second;"), only=['C18'])
m('ga-r-local', [], (CM, "    map< Vec<int64_t>, int64_t, vi64less > monomial_extended, H, Hnew;", "    map< Vec<int64_t>, int64_t, vi64less > H;"), (CM, "        monomial_extended.clear();\n", "        map< Vec<int64_t>, int64_t, vi64less > monomial_extended, Hnew;\n"), (CM, "        Hnew.clear();\n", ""), only=['C18'])
m('ga-r-neg', [], (FJ, "                if( Hnewit == Hnew.end() )\n                    Hnew[y] = G;\n                else\n                    Hnewit->second += G;", "                const bool there = Hnewit != Hnew.end();\n                if( there )\n                    Hnewit->second += G;\n                else\n                    Hnew[y] = G;"), only=['C18'])
m('ga-r-helper', [], (FJ, "Vec<ZZ_p> hypersurface::frob_J_ZZ_p(", "static void gather(map< Vec<int64_t>, Vec<ZZ_p>, vi64less > &M, const Vec<int64_t> &k, const Vec<ZZ_p> &x)\n{\n    map< Vec<int64_t>, Vec<ZZ_p>, vi64less >::iterator at = M.find(k);\n    if( at != M.end() )\n        at->second += x;\n    else\n        M[k] = x;\n}\n\nVec<ZZ_p> hypersurface::frob_J_ZZ_p("), (FJ, "                Hnewit =  Hnew.find(y);\n                if( Hnewit == Hnew.end() )\n                    Hnew[y] = G;\n                else\n                    Hnewit->second += G;", "                gather(Hnew, y, G);"), only=['C18'])
m('ga-r-range', [], (TL, "        for (itH = H.begin(); itH != H.end(); ++itH) {\n            itresult = result.find(itH->first);\n            if (itresult == result.end() )\n                result[itH->first] = itH->second;\n            else\n                itresult->second += itH->second;", "        for (const auto &term : H) {\n            itresult = result.find(term.first);\n            if (itresult == result.end() )\n                result[term.first] = term.second;\n            else\n                itresult->second += term.second;"), only=['C18'])
m('ga-r-swap2', [], (CM, "        H.swap(Hnew);", "        swap(H, Hnew);"), only=['C18'])
m('ga-r-copy', [], (CM, "        H.swap(Hnew);", "        H = Hnew;"), only=['C18'])
RJ = ['dr/reduce_vector_J.cc', 'dr/reduce_vector_J_ZZ.cc', 'dr/reduce_vector_J_poly.cc', 'dr/reduce_vector_J_poly_ZZ.cc', 'dr/get_reduction_matrix_J.cc', 'dr/get_reduction_matrix_J_ZZ.cc']
m('ev-j-index', ['C28'], (RJ[1], "it->second[i+1] * G", "it->second[i] * G"))
m('ev-j-range', ['C28'], (RJ[1], "    for( i = 0; i <= n ; i++)\n    {\n        result +=", "    for( i = 0; i < n ; i++)\n    {\n        result +="))
m('ev-j-v', ['C28'], (RJ[0], "result += u[i] *", "result += v[i] *"))
m('ev-j-set', ['C28'], (RJ[0], "result += u[i] *", "result = u[i] *"))
m('ev-poly-from', ['C28'], (RJ[2], "x = iterations - 1;", "x = iterations - 2;"))
m('ev-poly-order', ['C28'], (RJ[3], "for(x = iterations - 1; x != (int64_t)-1; x--)", "for(x = 0; x < iterations; x++)"))
m('ev-poly-once', ['C28'], (RJ[2], "mul(Gout1,x,Gout1);", "mul(Gout1,x,Gout0);"))
m('ev-poly-m1', ['C28'], (RJ[3], "M1 += v[i] * it->second[i+1];", "M1 += u[i] * it->second[i+1];"))
m('ev-poly-mod', ['C28'], (RJ[3], "rem(Gin[i], Gout[i], ZZ_p::modulus() )", "rem(Gin[i], Gout[i], power_ZZ(10, 60) )"))
m('ev-poly-rows', ['C28'], (RJ[3], "for(i = 0; i < (int64_t) G.length(); i++)\n            rem", "for(i = 0; i < n; i++)\n            rem"))
m('ev-poly-sub', ['C28'], (RJ[2], "add(Gin,Gout0,Gout1)", "sub(Gin,Gout0,Gout1)"))
m('ev-get-skip', ['C28'], (RJ[4], "        mul(temp, it->second[i+1], u[i]);\n", "        if( u[i] == 1 )\n            continue;\n        mul(temp, it->second[i+1], u[i]);\n"))
m('ev-nd-reset', ['C28'], (DN, "    for(itM = (it->second).begin(); itM != (it->second).end(); itM++)\n    {\n        NTL::set(monomial_evaluated);\n", "    NTL::set(monomial_evaluated);\n    for(itM = (it->second).begin(); itM != (it->second).end(); itM++)\n    {\n"))
m('ev-nd-first', ['C28'], (DN, "    itM++;\n    for(; itM", "    for(; itM"))
m('ev-nd-skip', ['C28'], (DN, "    itM++;\n    for(; itM", "    itM++;\n    if( itM != (it->second).end() )\n        itM++;\n    for(; itM"))
m('ev-nd-exp', ['C28'], (DN, "        result +=  itM->second * (conv<ZZ_p>(monomial_evaluated) * G);", "        if( monomial_evaluated != 7 )\n        result +=  itM->second * (conv<ZZ_p>(monomial_evaluated) * G);"))
m('ev-ndpoly-n', ['C28'], (DN, "        for(i = 1; i <= n; i++)\n        {\n            xpower *= x; // xpower = x^i\n            mul(Gtmp, poly[i], Gin);\n            mul(Gtmp, xpower, Gtmp);", "        for(i = 1; i < n; i++)\n        {\n            xpower *= x; // xpower = x^i\n            mul(Gtmp, poly[i], Gin);\n            mul(Gtmp, xpower, Gtmp);"))
m('ev-ndpoly-last', ['C28'], (DN, "        xpower *= x;\n        Gout[0] += xpower * (poly", "        Gout[0] += xpower * (poly"))
m('ev-ndpoly-row', ['C28'], (DN, "Gout[0] += xpower * (poly[n+1][0] * Gin)", "Gout[1] += xpower * (poly[n+1][1] * Gin)"))
m('ev-ndpoly-deg', ['C28'], (DN, "        if(sum_u == n+1)\n            (poly[ itM", "        if(sum_u >= n)\n            (poly[ itM"))
m('ev-ndpoly-sum', ['C28'], (DN, "        sum_u = (itM->first)[n+1];\n", "        sum_u = 0;\n"))
m('ev-ndflint-diag', ['C28'], (DN, "                rem(poly[i][j][k], poly_unreduced[i][j][k], ZZ_p::modulus() );\n            }\n        }\n        conv", "                rem(poly[i][j][k], poly_unreduced[i][k][j], ZZ_p::modulus() );\n            }\n        }\n        conv"))
m('ev-ndflint-conv', ['C28'], (DN, "conv(result + i,poly[i]);", "conv(result + i,poly[n+1-i]);"))
m('ev-r-matrix', [], (RJ[0], "    map< Vec<int64_t> ,  Vec<Mat<ZZ_p> >, vi64less>::const_iterator it;\n    it = compute_reduction_matrix_J(v);\n    result = it->second[0] * G;\n    for( i = 0; i <= n ; i++)\n    {\n        result += u[i] * (it->second[i+1] * G);\n    }\n    return result;", "    return get_reduction_matrix_J(u, v) * G;"), only=['C28'])
m('ev-r-skip', [], (RJ[0], "        result += u[i] * (it->second[i+1] * G);", "        if( u[i] == 0 )\n            continue;\n        result += (u[i] * it->second[i+1]) * G;"), only=['C28'])
m('ev-r-temp', [], (RJ[2], "        M0 += u[i] * it->second[i+1];\n        M1 += v[i] * it->second[i+1];", "        const Mat<ZZ_p> &Mi = it->second[i+1];\n        M1 += v[i] * Mi;\n        M0 += u[i] * Mi;"), only=['C28'])
m('ev-r-whole', [], (RJ[2], "        mul(Gout0, M0, Gin);\n        mul(Gout1, M1, Gin);\n        mul(Gout1,x,Gout1);\n        add(Gin,Gout0,Gout1);", "        Gin = M0 * Gin + x * (M1 * Gin);"), only=['C28'])
m('ev-r-asc', [], (RJ[3], "for(x = iterations - 1; x != (int64_t)-1; x--)", "for(int64_t done = 0; done < iterations; done++)"), (RJ[3], "mul(Gout1,x,Gout1)", "mul(Gout1,iterations - 1 - done,Gout1)"), only=['C28'])
m('ev-r-while', [], (RJ[2], "    for(x = iterations - 1; x != (int64_t)-1 ; x--) //couting on overflow\n    {\n", "    x = iterations;\n    while( x > 0 )\n    {\n        x--;\n"), only=['C28'])
m('ev-r-down', [], (RJ[4], "    for( i = 0; i <= n ; i++)\n    {\n        mul(temp", "    for( i = n; i >= 0 ; i--)\n    {\n        mul(temp"), only=['C28'])
m('ev-r-helper', [], (DN, "Mat<ZZ_p> de_Rham_non_degenerate_local::get_reduction_matrix_ND(", "static ZZ value_at(const Vec<int64_t> &u, const Vec<int64_t> &e, int64_t n)\n{\n    ZZ r;\n    NTL::set(r);\n    for(int64_t i = 0; i <= n; i++)\n        r *= power_ZZ(u[i], e[i]);\n    return r;\n}\n\nMat<ZZ_p> de_Rham_non_degenerate_local::get_reduction_matrix_ND("), (DN, "        NTL::set(monomial_evaluated);\n        for( i = 0; i <= n ; i++)\n            mul(monomial_evaluated, monomial_evaluated, power_ZZ(u[i],(itM->first)[i]) );\n\n        result += conv", "        monomial_evaluated = value_at(u, itM->first, n);\n        result += conv"), only=['C28'])
m('ev-r-peel', [], (DN, "    itM = (it->second).begin();\n    NTL::set(monomial_evaluated);\n    for( i = 0; i <= n ; i++)\n        mul(monomial_evaluated, monomial_evaluated, power_ZZ(u[i],(itM->first)[i]) );\n    result = itM->second * ( monomial_evaluated * G);\n    itM++;\n    for(; itM", "    result.SetLength(coKernels_ND_basis.length());\n    clear(result);\n    for(itM = (it->second).begin(); itM"), only=['C28'])
m('ev-r-plus', [], (DN, "        if(sum_u == n+1)\n            (poly[ itM->first[n+1] ])[0] += conv<ZZ_p>(monomial_evaluated) * (itM->second)[0];\n        else\n            poly", "        poly"), only=['C28'])
m('ev-r-range', [], (DN, "    for(itM = (it->second).begin(); itM != (it->second).end(); itM++)\n    {\n        NTL::set(monomial_evaluated);\n        for( i = 0; i <= n ; i++)\n            mul(monomial_evaluated, monomial_evaluated, power_ZZ(u[i],(itM->first)[i]) );\n\n        result += conv<ZZ_p>(monomial_evaluated) * itM->second;", "    for(const auto &t : it->second)\n    {\n        NTL::set(monomial_evaluated);\n        for( i = 0; i <= n ; i++)\n            monomial_evaluated *= power_ZZ(u[i], t.first[i]);\n\n        result += t.second * conv<ZZ_p>(monomial_evaluated);"), only=['C28'])

# ------------------------------------------------------------------ C29
FJ2, FMJ = 'hypersurface/frob_J_ZZ.cc', 'hypersurface/frob_matrix_J.cc'
m('fr-binom', ['C29'], (FJ, "bin = binomial(m + i - 1, m - 1) * binomial(i,j);", "bin = binomial(m + i, m - 1) * binomial(i,j);"))
m('fr-sign', ['C29'], (FJ, "if(j%2 == 0)", "if(i%2 == 0)"))
m('fr-from', ['C29'], (HN, "            for( i = j ; i < N ; i++)", "            for( i = j ; i < N - 1 ; i++)"))
m('fr-j', ['C29'], (HN, "j = e - m;", "j = e - m + 1;"))
m('fr-guard', ['C29'], (HN, "if( e >= m)", "if( e > m)"))
m('fr-guard2', ['C29'], (FJ2, "        if( e >= m )", "        if( e >= m && e > 1 )"))
m('fr-end', ['C29'], (HN, "end = (e > 1) ? p : p - 1;\n\n        for( i = 0; i < end ; i++)\n            fact *= p*e - i - 1;", "end = (e > 1) ? p : p - 1;\n\n        for( i = 0; i < p ; i++)\n            fact *= p*e - i - 1;"), all=True)
m('fr-fact', ['C29'], (FJ, "fact *= p*e - i - 1;", "fact *= p*e - i;"))
m('fr-nofact', ['C29'], (FJ2, "conv<ZZ_p>(Djm * rep(it->second) * rep(fact));\n            }\n            mul", "conv<ZZ_p>(Djm * rep(it->second));\n            }\n            mul"))
m('fr-ones', ['C29'], (HN, "monomial = it->first + ei + ones;", "monomial = it->first + ones;"))
m('fr-ones2', ['C29'], (FJ, "monomial = p * ( it->first + ei + ones ) - ones;", "monomial = p * ( it->first + ei + ones ) - ei;"))
m('fr-key', ['C29'], (FJ, "p * monomial - tweak( p * monomial, d * n - n)", "p * monomial - tweak( p * monomial, d * n - n - 1)"))
m('fr-dict', ['C29'], (FJ2, "dict_V = &dR->tuple_dict[ d * n - n ];", "dict_V = &dR->tuple_dict[ d * n - n - 1 ];"))
m('fr-entry', ['C29'], (HN, "(*H_temp)[0] +=", "(*H_temp)[dpowern - 1] +="))
m('fr-range', ['C29'], (FJ, "for(e = n/p; e != 0; e-- )", "for(e = n/p - 1; e > 0; e-- )"))
m('fr-top', ['C29'], (HN, "for( e = m + N - 1; e != 0; e--)", "for( e = m + N - 2; e != 0; e--)"))
m('fr-scale', ['C29'], (HN, "F *= to_ZZ_p(power_ZZ(p, n - 1 - val));", "F *= to_ZZ_p(power_ZZ(p, n - val));"))
m('fr-scale2', ['C29'], (HN, "power_ZZ(p,val - ( n - 1) )", "power_ZZ(p,val - n )"))
m('fr-val', ['C29'], (FJ, "val = valuation_of_factorial(p*(m + N - 1) - 1, p);", "val = valuation_of_factorial(p*(m + N - 1), p);"))
m('fr-flintfact', ['C29'], (HN, "val = factorial_p_adic(fact,  p*(m + N - 1) - 1, p);", "val = factorial_p_adic(fact,  p*(m + N - 1), p);"))
m('fr-exp', ['C29'], (FJ2, "if( n - 1 >= val)", "if( n >= val)"))
m('fr-final', ['C29'], (FJ, "F += (*(dR->get_final_reduction_matrix_J(p * e))) * G0;", "F += (*(dR->get_final_reduction_matrix_J(p * e - 1))) * G0;"))
m('fr-fpow', ['C29'], (FJ, "compute_fpow(N-1);", "compute_fpow(N-2);"))
m('fr-row', ['C29'], (FMJ, "F[i] = frob_J(i, N[m-1]);", "F[i] = frob_J(i, N[m]);"))
m('fr-m', ['C29'], (FMJ, "for( j = 0; j<=n; j++)", "for( j = 0; j<n; j++)"))
m('fr-cond', ['C29'], (FMJ, "if(N[m-1]>0)", "if(N[m-1]>1)"))
m('fr-trans', ['C29'], (FMJ, "return transpose(F);", "return F;"))
m('fr-m2', ['C29'], (HN, "m = (sum + n + 1)/d;", "m = (sum + n)/d;"))
m('fr-tmp', ['C29'], (HN, "tmp = conv<ZZ_p>(Djm * rep(it->second) * rep(fact) );", "tmp = conv<ZZ_p>(Djm * rep(it->second) * rep(it->second) );"))
m('fr-r-sign', [], (FJ, "                if(j%2 == 0)\n                    Djm += bin;\n                else\n                    Djm -= bin;", "                if(j%2 == 1)\n                    Djm -= bin;\n                else\n                    Djm += bin;"), (FJ2, "                if(j%2 == 0)\n                    Djm += bin;\n                else\n                    Djm -= bin;", "                Djm += (j & 1) ? -bin : bin;"), only=['C29'])
m('fr-r-fact', [], (FJ, "        for( i = 0; i < end ; i++)\n            fact *= p*e - i - 1;", "        for( i = 1; i <= end ; i++)\n            fact *= p*e - i;"), (FJ2, "        for( i = 0; i < end ; i++)\n            fact *= p*e - i - 1;", "        for( i = end; i > 0 ; i--)\n            fact *= p*e - i;"), only=['C29'])
m('fr-r-end', [], (HN, "end = (e > 1) ? p : p - 1;", "end = (e == 1) ? p - 1 : p;"), all=True, only=['C29'])
m('fr-r-end2', [], (HN, "end = (e > 1) ? p : p - 1;", "if(e > 1)\n            end = p;\n        else\n            end = p - 1;"), all=True, only=['C29'])
m('fr-r-key', [], (HN, "monomial = it->first + ei + ones;", "monomial = ones + it->first;\n                monomial = monomial + ei;"), all=True, only=['C29'])
m('fr-r-djm', [], (HN, "Vec<ZZ_p> hypersurface_non_degenerate::frob_ND(", "static ZZ D(int64_t j, int64_t m, int64_t N)\n{\n    ZZ r(0);\n    for(int64_t i = j; i < N; i++)\n    {\n        ZZ b = binomial_ZZ(m + i - 1, m - 1) * binomial_ZZ(i, j);\n        if(j % 2 == 0)\n            r += b;\n        else\n            r -= b;\n    }\n    return r;\n}\n\nVec<ZZ_p> hypersurface_non_degenerate::frob_ND("), (HN, "            Djm = 0;\n            // Djm = sum( [ binomial(m + i -1, m -1) * binomial(i , j) * (-1) ** j for i in range(j,N) ] )\n            for( i = j ; i < N ; i++)\n            {\n                bin = binomial(m + i - 1, m - 1) * binomial(i,j);\n                if(j%2 == 0)\n                    Djm += bin;\n                else\n                    Djm -= bin;\n            }\n", "            Djm = D(j, m, N);\n"), only=['C29'])
m('fr-r-scale', [], (FJ, "static_assert", "static_assert") if False else (FJ, "    F *= fact;\n    \n    if( n - 1 >= val)\n        F *= to_ZZ_p(power_ZZ(p, n - 1 - val));", "    mul(F, F, fact);\n    const int64_t shift = n - 1 - val;\n    if( shift >= 0 )\n        F *= conv<ZZ_p>(power_ZZ(p, shift));"), only=['C29'])
m('fr-r-guard', [], (FJ, "        if( e >= m )", "        if( !(e < m) )"), (FJ2, "for( e = m + N - 1; e > n/p; e--)", "for( e = m + N - 1; e >= n/p + 1; --e)"), only=['C29'])
m('fr-r-while', [], (FJ2, "for( e = m + N - 1; e > n/p; e--)\n    {", "e = m + N;\n    while( --e > n/p )\n    {"), only=['C29'])
m('fr-r-range', [], (FJ2, "            for( it = fpow.get(j).begin(); it != fpow.get(j).end(); ++it)\n            {\n                monomial = it->first + ei + ones;\n                H_temp = &H[monomial];\n                H_temp->SetLength( dict_V->size() );\n                (*H_temp)[ (*dict_V)[ p * monomial - tweak( p * monomial, d * n - n) ] ] += conv<ZZ_p>(Djm * rep(it->second) * rep(fact));", "            for( const auto &t : fpow[j])\n            {\n                monomial = t.first + ei + ones;\n                Vec<ZZ_p> &h = H[monomial];\n                h.SetLength( dict_V->size() );\n                h[ (*dict_V)[ p * monomial - tweak( p * monomial, d * n - n) ] ] += conv<ZZ_p>(rep(fact) * Djm * rep(t.second));"), only=['C29'])
m('fr-r-skip', [], (HN, "                (*H_temp)[0] += Djm * it->second * fact;", "                ZZ_p c = to_ZZ_p(Djm) * it->second;\n                c *= fact;\n                (*H_temp)[0] += c;"), only=['C29'])
m('fr-r-mat', [], (FMJ, "        if(N[m-1]>0)\n            F[i] = frob_J(i, N[m-1]);", "        const int64_t terms = N[m-1];\n        if(terms < 1)\n            continue;\n        F[i] = frob_J(i, terms);"), only=['C29'])
m('fr-r-mat2', [], (FMJ, "    return transpose(F);", "    Mat<ZZ_p> R;\n    transpose(R, F);\n    return R;"), only=['C29'])

# ------------------------------------------------------------------ C32: entries
IJ, FR, MJ, FPW = 'dr/compute_inclusion_matrix_J.cc', 'dr/compute_final_reduction_matrix_J.cc', 'dr/matrix_J.cc', 'hypersurface/compute_fpow.cc'
m('en-row', ['C32'], (J, "(*list_F)[coordinate_of_monomial_of_Fi] + one_minus_ei ];", "(*list_F)[coordinate_of_monomial_of_Fi] + (i == n ? one_minus_ei : one_minus_ei) ];"), only=['C32'])
M.pop()
m('en-coef', ['C32'], (J, "(*list_F)[coordinate_of_monomial_of_Fi][i] * F[i*dim_Fi", "(*list_F)[coordinate_of_monomial_of_Fi][0] * F[i*dim_Fi"))
m('en-plus1', ['C32'], (J, "(*M)[i+1][row]", "(*M)[n+1-i][row]"))
m('en-noback', ['C32'], (J, "                    one_minus_ei[i]++;\n", "                    if(i < n) one_minus_ei[i]++;\n"))
m('en-noback2', ['C32'], (J, "                    one_minus_ei[i]++;\n", ""))
m('en-wzero', ['C32'], (J, "if( w[i] > 0)", "if( w[i] >= 0)"))
m('en-col', ['C32'], (J, "solve_top->get(i, coordinate_of_w)", "solve_top->get(i, coordinate_of_monomial)"))
m('en-range', ['C32'], (J, "for(int64_t i = 0; i <= n; i++) {\n                    one_minus", "for(int64_t i = 0; i < n; i++) {\n                    one_minus"))
m('en-assign', ['C32'], (J, "(*M)[i+1][row][coordinate_of_monomial] += F", "(*M)[i+1][row][coordinate_of_monomial] = F"))
m('en-incl', ['C32'], (IJ, "            if(w[i] > 0)", "            if(w[i] > 1)"))
m('en-incl-n', ['C32'], (IJ, "for( i = 0; i <= n ; i++)", "for( i = 0; i < n ; i++)"))
m('en-fact', ['C32'], (FR, "for( i = 1 ; i < k ; i++ )", "for( i = 1 ; i < k - 1 ; i++ )"))
m('en-fact2', ['C32'], (FR, "fact *= i;", "fact *= (k - i);"))
M.pop()
m('en-H0', ['C32'], (FR, "for( i = 0 ; i < (int64_t) H.length(); i++)\n                H[i] = 0;", "for( i = 1 ; i < (int64_t) H.length(); i++)\n                H[i] = 0;"))
m('en-low', ['C32'], (FR, "final_reduction_matrix_J_dict[k-2];", "final_reduction_matrix_J_dict[k > 2 ? k-2 : k-1];"))
m('en-basis', ['C32'], (FR, "fact * F[ (n + 1) * dim_Fi + i]", "fact * F[ n * dim_Fi + i]"))
m('en-diff', ['C32'], (FR, "diff(  (*list_F)[ coordinate_of_monomial_of_Fi ], i)", "diff(  (*list_F)[ coordinate_of_monomial_of_Fi ], n)"))
m('en-mj', ['C32'], (MJ, "(itf->first)[i] * itf->second;", "(itf->first)[n - i] * itf->second;"))
m('en-mj2', ['C32'], (MJ, "i*len_list_lminusd1 + j ]", "j*(n+1) + i ]"))
m('en-mj3', ['C32'], (MJ, "if( (itf->first)[i] > 0 )", "if( (itf->first)[i] > 1 )"))
m('en-nd-zero', ['C32'], (ND, "tuple_list[k * d][coordinate_of_monomial_of_Fi][i] * F[i * dim_Fi", "tuple_list[k * d][coordinate_of_monomial_of_Fi][0] * F[i * dim_Fi"))
m('en-nd-r', ['C32'], (ND, "(r[i] + tuple_list[d * n - n]", "(s[i] + tuple_list[d * n - n]"))
m('en-nd-clear', ['C32'], (ND, "                Hnew.clear();\n", "                if(k > 0) Hnew.clear();\n"))
m('en-nd-coker', ['C32'], (ND, "if( (int64_t) (k+1) <= n )", "if( (int64_t) (k+1) < n )"))
m('en-nd-k0', ['C32'], (ND, "(it_result->second)[0][coordinate_of_monomial] += (itH->second)[0];", "(it_result->second)[0][coordinate_of_monomial] = (itH->second)[0];"))
m('en-nd-level', ['C32'], (ND, "solve[i] = get_solve_ND( (i+1)*d );", "solve[i] = get_solve_ND( (i < n-1 ? i+1 : n)*d );"))
M.pop()
m('en-nd-poly', ['C32'], (ND, "if( sum == n+1)\n", "if( sum >= n)\n"))
m('en-nd-incl', ['C32'], (ND, "u_minus_ones[i] = u[i] - 1;", "u_minus_ones[i] = u[i] > 1 ? u[i] - 1 : 0;"))
m('en-nd-pos', ['C32'], (ND, "result->put(i,pos+j,tmp[i][j]);", "result->put(i,l+j,tmp[i][j]);"))
m('en-nd-tw', ['C32'], (ND, "a = monomial - tt;", "a = tt - tt;"))
m('en-nd-ei', ['C32'], (ND, "            ei[i]--;\n", "            ei[0]--;\n"))
m('en-nd-gt', ['C32'], (ND, "if(a[i] + tuple_list[d * n - 2 * n][coordinate_of_monomial_Fi][i] >0)", "if(tuple_list[d * n - 2 * n][coordinate_of_monomial_Fi][i] >0)"))
m('en-mnd', ['C32'], (ND, "itf->first[i] * itf->second);", "itf->first[n - i] * itf->second);"))
# refactorings
m('en-r-flag', [], (J, "            for(int64_t i = 0; i <= n; i++)\n            {\n                if( w[i] > 0)\n                    w[i]--;\n                else\n                {\n                    boolean = false;\n                    break;\n                }\n            }", "            for(int64_t i = 0; i <= n && boolean; i++)\n            {\n                if( w[i] <= 0)\n                    boolean = false;\n                else\n                    w[i] -= 1;\n            }"), only=['C32', 'C28', 'C17', 'C03'])
m('en-r-nobreak', [], (J, "                    boolean = false;\n                    break;\n", "                    boolean = false;\n"), only=['C32'])
m('en-r-cont', [], (J, "            if(boolean) // sum(w) = d * n - 2n + d - 1\n            {", "            if(!boolean) continue;\n            {"), only=['C32'])
m('en-r-swaploops', [], (J, "(*M)[0][row][coordinate_of_monomial] += (*list_F)[coordinate_of_monomial_of_Fi][i] * F[i*dim_Fi + coordinate_of_monomial_of_Fi];\n                        (*M)[i+1][row][coordinate_of_monomial] += F[i*dim_Fi + coordinate_of_monomial_of_Fi];", "const int64_t at = coordinate_of_monomial_of_Fi + dim_Fi*i;\n                        const ZZ_p coef = F[at];\n                        (*M)[1+i][row][coordinate_of_monomial] += coef;\n                        (*M)[0][row][coordinate_of_monomial] += coef * (*list_F)[coordinate_of_monomial_of_Fi][i];"), only=['C32', 'C04', 'C31'])
m('en-r-helper', [], (J, "map< Vec<int64_t>, Vec<Mat<ZZ_p> >, vi64less>::const_iterator de_Rham_local::compute_reduction_matrix_J", "static bool lower_all(Vec<int64_t> &w, int64_t n)\n{\n    for(int64_t i = 0; i <= n; i++)\n    {\n        if( w[i] <= 0 )\n            return false;\n        w[i]--;\n    }\n    return true;\n}\n\nmap< Vec<int64_t>, Vec<Mat<ZZ_p> >, vi64less>::const_iterator de_Rham_local::compute_reduction_matrix_J"), (J, "            bool boolean = true;\n            for(int64_t i = 0; i <= n; i++)\n            {\n                if( w[i] > 0)\n                    w[i]--;\n                else\n                {\n                    boolean = false;\n                    break;\n                }\n            }", "            const bool boolean = lower_all(w, n);"), only=['C32'])
m('en-r-while', [], (IJ, "        for( i = 0; i <= n ; i++)\n        {", "        i = -1;\n        while( ++i <= n )\n        {"), only=['C32'])
M.pop()
m('en-r-while2', [], (IJ, "        for( i = 0; i <= n ; i++)\n        {\n            if(w[i] > 0)\n                w[i]--;\n            else\n            {\n                boolean = false;\n                break;\n            }\n        }", "        i = 0;\n        while( i <= n )\n        {\n            if(w[i] <= 0)\n            {\n                boolean = false;\n                break;\n            }\n            --w[i];\n            ++i;\n        }"), only=['C32'])
m('en-r-final', [], (FR, "            for( i = 0 ; i < (int64_t) F.length(); i++)\n                F[i] = U->get(i, coordinate_of_monomial);\n\n            for( i = 0 ; i <= n; i++)\n            {\n                for( coordinate_of_monomial_of_Fi = 0;", "            for( i = 0 ; i < (int64_t) U->NumRows(); i++)\n                F[i] = (*U)[i][coordinate_of_monomial];\n\n            for( i = 0 ; i < n + 1; i++)\n            {\n                for( coordinate_of_monomial_of_Fi = 0;"), only=['C32', 'C31'])
m('en-r-final2', [], (FR, "                    if( (*list_F)[ coordinate_of_monomial_of_Fi ][i] > 0)\n                        H[ (*dict_H)[ diff(  (*list_F)[ coordinate_of_monomial_of_Fi ], i) ] ] += (*list_F)[ coordinate_of_monomial_of_Fi ][i] * F[ i * dim_Fi + coordinate_of_monomial_of_Fi ];", "                    const Vec<int64_t> &mon = (*list_F)[ coordinate_of_monomial_of_Fi ];\n                    if( mon[i] < 1 )\n                        continue;\n                    const int64_t place = (*dict_H)[ diff(mon, i) ];\n                    H[place] += mon[i] * F[ i * dim_Fi + coordinate_of_monomial_of_Fi ];"), only=['C32', 'C31'])
m('en-r-fact', [], (FR, "        for( i = 1 ; i < k ; i++ )\n        {\n            fact *= i;\n        }", "        for( i = 2 ; i <= k - 1 ; i++ )\n            fact = fact * i;"), only=['C32'])
m('en-r-mj', [], (MJ, "            for(itf = f.begin(); itf != f.end(); itf++)\n            {\n                if( (itf->first)[i] > 0 )\n                {\n                    result[ (*tuple_dict_l)[ diff(itf->first, i) + (*tuple_list_lminusd1)[j] ]][ i*len_list_lminusd1 + j ] = (itf->first)[i] * itf->second;\n                }\n            }", "            const int64_t column = i*len_list_lminusd1 + j;\n            for(const auto &term : f)\n            {\n                if( term.first[i] == 0 || term.first[i] < 0 )\n                    continue;\n                result[ (*tuple_dict_l)[ diff(term.first, i) + (*tuple_list_lminusd1)[j] ]][ column ] = term.first[i] * term.second;\n            }"), only=['C32'])
m('en-r-nd', [], (ND, "            zero[i]++;\n            U[i] = zero;\n            zero[i]--;\n", "            U[i].SetLength(n+1);\n            for(int64_t j = 0; j <= n; j++)\n                U[i][j] = (i == j) ? 1 : 0;\n"), only=['C32', 'C18', 'C28'])
m('en-r-nd2', [], (ND, "                    for(int64_t  i = 0; i <= n; i++)\n                    {\n                        Hnew_Ui = &(Hnew[itH->first + U[i] ]);", "                    for(int64_t  i = 0; i <= n; ++i)\n                    {\n                        const Vec<int64_t> raised = itH->first + U[i];\n                        Hnew_Ui = &(Hnew[raised]);"), only=['C32', 'C18', 'C28'])
m('en-r-fpow', [], (FPW, "        for(", "        for (", ), only=['C32'])
M.pop()

# C28: box of the differences
m('df-row', ['C28'], (ND, "max_row[i] = j + 1;", "max_row[i] = j;"))
m('df-col', ['C28'], (ND, "min_col[i] = l;", "min_col[i] = l + 1;"))
m('df-swap', ['C28'], (ND, "min_col[i] = l;", "min_col[i] = j;"))
m('df-shrink', ['C28'], (ND, "if(max_row[i] <= j)", "if(max_row[i] >= j)"))
m('df-own', ['C28'], (ND, "max_row[i] = std::max(max_row[i], max_row[i + 1]);", ""))
m('df-min', ['C28'], (ND, "min_col[i] = std::min(min_col[i], min_col[i + 1]);", "min_col[i] = std::max(min_col[i], min_col[i + 1]);"))
m('df-level', ['C28'], (ND, "max_row[j+1], min_col[j + 1]", "max_row[j+1], min_col[j + 2 > n + 1 ? j + 1 : j + 2]"))
m('df-level0', ['C28'], (ND, "max_row[j+1], min_col[j + 1]", "max_row[j], min_col[j + 1]"))
m('df-r-if', [], (ND, "max_row[i] = std::max(max_row[i], max_row[i + 1]);", "if(max_row[i + 1] > max_row[i])\n            max_row[i] = max_row[i + 1];"))
m('df-r-scan', [], (ND, "                    if(max_row[i] <= j)\n                        max_row[i] = j + 1;", "                    if(j + 1 > max_row[i])\n                        max_row[i] = 1 + j;"))
m('df-r-name', [], (ND, "            for(l = 0; l < d; l++)\n            {\n                nmod_mat_entry(M + i, j, l) =", "            l = -1;\n            while(++l < d)\n            {\n                nmod_mat_entry(M + i, j, l) ="))
