From 2c50159ae8139f0e1c19bef31d1e41eaec393605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:42 +0000
Subject: [PATCH 1/8] fix: frob_ND_flint released its modulus inside the
 reduction loop when running with several threads

---
 hypersurface_nd/hypersurface_nd.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hypersurface_nd/hypersurface_nd.cc b/hypersurface_nd/hypersurface_nd.cc
index 48f192c..e7b382f 100644
--- a/hypersurface_nd/hypersurface_nd.cc
+++ b/hypersurface_nd/hypersurface_nd.cc
@@ -650,7 +650,6 @@ Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_flint(const int64_t coordinate, c
             flint_free(v_list);
             flint_free(poly_list);
             _fmpz_vec_clear(G_list,Hlen*dpowern);
-            fmpz_clear(modulus);
             // reduced all terms from p*e to p*(e-1) and if e = 1 to basis
             H.swap(Hnew);
         }
-- 
2.43.0


From 083b76367b127ed3eb383735ee2723b34c247e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:42 +0000
Subject: [PATCH 2/8] fix: release the temporaries of the mpz vector products

---
 matrix/mul.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matrix/mul.cc b/matrix/mul.cc
index e03bec4..1752c5c 100644
--- a/matrix/mul.cc
+++ b/matrix/mul.cc
@@ -68,6 +68,7 @@ void mul(mpz_t* result, mpz_t* A, int64_t rowsA, int64_t colsA, mpz_t* v, int64_
         }
         mpz_set(result[i],acc);
     }
+    mpz_clears(tmp,acc,NULL);
 }
 // result = a * v;
 void mul(mpz_t* result, mpz_t a, mpz_t* v, int64_t v_length)
@@ -101,6 +102,7 @@ void mul(mpz_t &result, mpz_t* u, int64_t u_length, mpz_t* v, int64_t v_length)
         mpz_mul(tmp,u[i],v[i]);
         mpz_add(result, result, tmp);
     }
+    mpz_clear(tmp);
 }
 
 //Some routines for fmpz_{mat,vec} and nmod_{mat,vec}
-- 
2.43.0


From ef324cf0757828576be36c2c958c35f0a0443af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:08 +0000
Subject: [PATCH 3/8] fix: save handles file names of any length and reports
 failures to open or write

---
 dr/save.cc     | 16 ++++++++++------
 dr_nd/dr_nd.cc | 18 +++++++++++-------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/dr/save.cc b/dr/save.cc
index 4354562..db7b2ac 100644
--- a/dr/save.cc
+++ b/dr/save.cc
@@ -10,10 +10,8 @@ bool de_Rham_local::save(const char * filename)
         cout <<"Saving de_Rham_local to: "<< filename << endl;
 
     ofstream fileswp;
-    char fileswpname[sizeof(filename)+4];
-    strcpy(fileswpname, filename);
-    strcat(fileswpname,".swp");
-    fileswp.open(fileswpname);
+    const string fileswpname = string(filename) + ".swp";
+    fileswp.open(fileswpname.c_str());
 
     int64_t i;
     ofstream file;
@@ -25,7 +23,8 @@ bool de_Rham_local::save(const char * filename)
     for( it = fbar.begin(); it != fbar.end(); it++)
         fbar_vector[ tuple_dict[d][it->first] ] = it->second;
 
-    file.open(filename, ios::out | ios::trunc);
+    if(fileswp.is_open())
+        file.open(filename, ios::out | ios::trunc);
 
     
 
@@ -51,7 +50,12 @@ bool de_Rham_local::save(const char * filename)
         file << solve_pair->second <<endl;
         file.close();
         fileswp.close();
-        remove(fileswpname);
+        if(file.fail())
+        {
+            cout << "Wasn't able to write "<<filename<<endl;
+            return false;
+        }
+        remove(fileswpname.c_str());
         return true;
     }
     else
diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index f682f4a..afa59cc 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -248,10 +248,8 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
         cout <<"Saving de_Rham_non_degenerate_local to: "<< filename << endl;
 
     ofstream fileswp;
-    char fileswpname[sizeof(filename)+4];
-    strcpy(fileswpname, filename);
-    strcat(fileswpname,".swp");
-    fileswp.open(fileswpname);
+    const string fileswpname = string(filename) + ".swp";
+    fileswp.open(fileswpname.c_str());
 
     int64_t i;
     ofstream file;
@@ -263,11 +261,12 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
     for( it = fbar.begin(); it != fbar.end(); it++)
         fbar_vector[ tuple_dict[d][it->first] ] = it->second;
 
-    file.open(filename, ios::out | ios::trunc);
+    if(fileswp.is_open())
+        file.open(filename, ios::out | ios::trunc);
 
 
 
-    if(file.is_open())
+    if(file.is_open() && fileswp.is_open())
     {
         file << p <<endl;
         file << precision <<endl;
@@ -305,7 +304,12 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
 
         file.close();
         fileswp.close();
-        remove(fileswpname);
+        if(file.fail())
+        {
+            cout << "Wasn't able to write "<<filename<<endl;
+            return false;
+        }
+        remove(fileswpname.c_str());
         return true;
     }
     else
-- 
2.43.0


From 54b1f75969081827d44c2bc5a87e5af78f37c3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:23 +0000
Subject: [PATCH 4/8] fix: saved files keep the equation modulo p^precision,
 not only modulo p

---
 dr/constructors.cc | 14 +++++++-------
 dr/save.cc         | 12 ++++++------
 dr_nd/dr_nd.cc     | 26 +++++++++++++-------------
 3 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/dr/constructors.cc b/dr/constructors.cc
index c8e845a..84e9704 100644
--- a/dr/constructors.cc
+++ b/dr/constructors.cc
@@ -96,7 +96,7 @@ de_Rham_local::de_Rham_local(const char* filename)
 {
     int64_t i, j;
     ifstream file;
-    Vec<zz_p> fbar_vector;
+    Vec<ZZ_p> f_vector;
     pair< Vec<int64_t>, Mat<ZZ_p> > *solve_pair;
     file.open(filename);
 
@@ -111,7 +111,7 @@ de_Rham_local::de_Rham_local(const char* filename)
         file >> n;
         file >> d;
         file >> Hilbert_J;
-        file >> fbar_vector;
+        file >> f_vector;
 
         tuple_list.SetLength( (n + 1) * d + 1);
         tuple_dict.SetLength( (n + 1) * d + 1);
@@ -123,13 +123,13 @@ de_Rham_local::de_Rham_local(const char* filename)
                 tuple_dict[i][ ((tuple_list[i])[j]) ] = j;
             }
         }
-        assert( tuple_list[d].length() == fbar_vector.length() );
-        for(i = 0 ; i < (int64_t) fbar_vector.length() ; i++)
+        assert( tuple_list[d].length() == f_vector.length() );
+        for(i = 0 ; i < (int64_t) f_vector.length() ; i++)
         {
-            if( ! IsZero(fbar_vector[i]) )
+            if( ! IsZero(f_vector[i]) )
             {
-                f[ tuple_list[d][i] ] = rep( fbar_vector[i] );
-                fbar[ tuple_list[d][i] ] = fbar_vector[i];
+                f[ tuple_list[d][i] ] = f_vector[i];
+                fbar[ tuple_list[d][i] ] = conv<zz_p>( rep( f_vector[i] ) );
             }
         }
 
diff --git a/dr/save.cc b/dr/save.cc
index db7b2ac..a3f1b97 100644
--- a/dr/save.cc
+++ b/dr/save.cc
@@ -15,13 +15,13 @@ bool de_Rham_local::save(const char * filename)
 
     int64_t i;
     ofstream file;
-    Vec<zz_p> fbar_vector;
-    map< Vec<int64_t>, zz_p, vi64less>::const_iterator it;
+    Vec<ZZ_p> f_vector;
+    map< Vec<int64_t>, ZZ_p, vi64less>::const_iterator it;
     pair< Vec<int64_t> , Mat<ZZ_p> > *solve_pair;
 
-    fbar_vector.SetLength( tuple_list[d].length() );
-    for( it = fbar.begin(); it != fbar.end(); it++)
-        fbar_vector[ tuple_dict[d][it->first] ] = it->second;
+    f_vector.SetLength( tuple_list[d].length() );
+    for( it = f.begin(); it != f.end(); it++)
+        f_vector[ tuple_dict[d][it->first] ] = it->second;
 
     if(fileswp.is_open())
         file.open(filename, ios::out | ios::trunc);
@@ -37,7 +37,7 @@ bool de_Rham_local::save(const char * filename)
         file << n <<endl;
         file << d <<endl;
         file << Hilbert_J <<endl;
-        file << fbar_vector << endl;
+        file << f_vector << endl;
 
         for( i = 0; i < n ; i++)
         {
diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index afa59cc..44473ac 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -105,7 +105,7 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
 {
     int64_t i, j;
     ifstream file;
-    Vec<zz_p> fbar_vector;
+    Vec<ZZ_p> f_vector;
     pair< Vec<int64_t>, Mat<ZZ_p> > *solve_pair;
     file.open(filename);
 
@@ -120,7 +120,7 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
         file >> n;
         file >> d;
         file >> Hilbert_J;
-        file >> fbar_vector;
+        file >> f_vector;
 
         tuple_list.SetLength( (n + 1) * d + 1);
         tuple_dict.SetLength( (n + 1) * d + 1);
@@ -132,13 +132,13 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
                 tuple_dict[i][ ((tuple_list[i])[j]) ] = j;
             }
         }
-        assert( tuple_list[d].length() == fbar_vector.length() );
-        for(i = 0 ; i < (int64_t) fbar_vector.length() ; i++)
+        assert( tuple_list[d].length() == f_vector.length() );
+        for(i = 0 ; i < (int64_t) f_vector.length() ; i++)
         {
-            if( ! IsZero(fbar_vector[i]) )
+            if( ! IsZero(f_vector[i]) )
             {
-                f[ tuple_list[d][i] ] = rep( fbar_vector[i] );
-                fbar[ tuple_list[d][i] ] = fbar_vector[i];
+                f[ tuple_list[d][i] ] = f_vector[i];
+                fbar[ tuple_list[d][i] ] = conv<zz_p>( rep( f_vector[i] ) );
             }
         }
 
@@ -253,13 +253,13 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
 
     int64_t i;
     ofstream file;
-    Vec<zz_p> fbar_vector;
-    map< Vec<int64_t>, zz_p, vi64less>::const_iterator it;
+    Vec<ZZ_p> f_vector;
+    map< Vec<int64_t>, ZZ_p, vi64less>::const_iterator it;
     pair< Vec<int64_t> , Mat<ZZ_p> > *solve_pair;
 
-    fbar_vector.SetLength( tuple_list[d].length() );
-    for( it = fbar.begin(); it != fbar.end(); it++)
-        fbar_vector[ tuple_dict[d][it->first] ] = it->second;
+    f_vector.SetLength( tuple_list[d].length() );
+    for( it = f.begin(); it != f.end(); it++)
+        f_vector[ tuple_dict[d][it->first] ] = it->second;
 
     if(fileswp.is_open())
         file.open(filename, ios::out | ios::trunc);
@@ -275,7 +275,7 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
         file << n <<endl;
         file << d <<endl;
         file << Hilbert_J <<endl;
-        file << fbar_vector << endl;
+        file << f_vector << endl;
 
         for( i = 0; i < n ; i++)
         {
-- 
2.43.0


From 5e06deb03ba85b89bbe72450f6dacb43d0abb022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:23 +0000
Subject: [PATCH 5/8] fix: loading a truncated file fails instead of going on
 with incomplete data

---
 dr/constructors.cc | 1 +
 dr_nd/dr_nd.cc     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dr/constructors.cc b/dr/constructors.cc
index 84e9704..bc0f24d 100644
--- a/dr/constructors.cc
+++ b/dr/constructors.cc
@@ -102,6 +102,7 @@ de_Rham_local::de_Rham_local(const char* filename)
 
     if(file.is_open())
     {
+        file.exceptions(ifstream::failbit | ifstream::badbit); //a truncated file must not load
         file >> p;
         assert( p == (int64_t)  zz_p::modulus() );
         file >> precision;
diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index 44473ac..f7aa6d0 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -111,6 +111,7 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
 
     if(file.is_open())
     {
+        file.exceptions(ifstream::failbit | ifstream::badbit); //a truncated file must not load
         file >> p;
         assert( p == (int64_t) zz_p::modulus() );
         file >> precision;
-- 
2.43.0


From 1e5fd1900a0a307a579edd938b744022db702fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 6/8] fix: row strides of the flat mpz matrices for matrices
 that are not square

---
 conv/conv.cc           | 4 ++--
 matrix/mul.cc          | 8 ++++----
 matrix/mul_tranpose.cc | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/conv/conv.cc b/conv/conv.cc
index 97aa639..fd2f261 100644
--- a/conv/conv.cc
+++ b/conv/conv.cc
@@ -69,7 +69,7 @@ void conv(mpz_t* A, const Mat<ZZ> &B)
     {
         for(j = 0; j < colsB; j++)
         {
-            conv(A[i*rowsB+j], B[i][j]);
+            conv(A[i*colsB+j], B[i][j]);
         }
     }
 }
@@ -83,7 +83,7 @@ void conv(Mat<ZZ> &A, mpz_t* B, int64_t rowsB, int64_t colsB)
     {
         for(j = 0; j < colsB; j++)
         {
-            conv(A[i][j], B[i*rowsB + j]);
+            conv(A[i][j], B[i*colsB + j]);
         }
     }
 
diff --git a/matrix/mul.cc b/matrix/mul.cc
index 1752c5c..ae70440 100644
--- a/matrix/mul.cc
+++ b/matrix/mul.cc
@@ -28,10 +28,10 @@ void mul(mpz_t* result, mpz_t* A, int64_t rowsA, int64_t colsA, mpz_t* B, int64_
             mpz_set_ui(acc,0);
             for(k = 0; k < rowsB; k++)
             {
-                mpz_mul(tmp, A[i*rowsA + k], B[k*rowsB + j]);
+                mpz_mul(tmp, A[i*colsA + k], B[k*colsB + j]);
                 mpz_add(acc,acc,tmp);
             }
-            mpz_set(result[i*rowsA + j],acc);
+            mpz_set(result[i*colsB + j],acc);
         }
     }
     mpz_clears(tmp, acc, NULL);
@@ -46,7 +46,7 @@ void mul(mpz_t* result, mpz_t a, mpz_t* A, int64_t rowsA, int64_t colsA)
     {
         for(j = 0; j < colsA; j++)
         {
-            mpz_mul(result[i*rowsA+j], a, A[i*rowsA+j]);
+            mpz_mul(result[i*colsA+j], a, A[i*colsA+j]);
         }
     }
 }
@@ -63,7 +63,7 @@ void mul(mpz_t* result, mpz_t* A, int64_t rowsA, int64_t colsA, mpz_t* v, int64_
         mpz_set_ui(acc,0);
         for(j = 0; j < colsA; j++)
         {
-            mpz_mul(tmp,A[i*rowsA +j],v[j]);
+            mpz_mul(tmp,A[i*colsA +j],v[j]);
             mpz_add(acc,acc,tmp);
         }
         mpz_set(result[i],acc);
diff --git a/matrix/mul_tranpose.cc b/matrix/mul_tranpose.cc
index 48a6a38..e0d2704 100644
--- a/matrix/mul_tranpose.cc
+++ b/matrix/mul_tranpose.cc
@@ -55,10 +55,10 @@ void mul_transpose(mpz_t* result, mpz_t* A, int64_t rowsA, int64_t colsA, mpz_t*
             mpz_set_ui(acc,0);
             for(k = 0; k < rowsB; k++)
             {
-                mpz_mul(tmp, A[i*rowsA + k], B[j*colsB + k]);
+                mpz_mul(tmp, A[i*colsA + k], B[j*rowsB + k]);
                 mpz_add(acc,acc,tmp);
             }
-            mpz_set(result[i*rowsA + j],acc);
+            mpz_set(result[i*colsB + j],acc);
         }
     }
     mpz_clears(tmp, acc,NULL);
-- 
2.43.0


From b478a24a24c448db3c61579da3998dea7a1001be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 7/8] fix: frob_J_ZZ_p completes the factorial when the small
 pole orders carry no terms

For n/p >= 1 and m > 1 the last loop stopped as soon as e < m, so fact was
missing the factors below p*(m-1) and the assertion on it aborted (p = 3,
n = 3, d = 4, second basis element).  Same structure as frob_J_ZZ.
---
 hypersurface/frob_J_ZZ_p.cc | 46 +++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/hypersurface/frob_J_ZZ_p.cc b/hypersurface/frob_J_ZZ_p.cc
index 03ad9ee..6f61159 100644
--- a/hypersurface/frob_J_ZZ_p.cc
+++ b/hypersurface/frob_J_ZZ_p.cc
@@ -214,33 +214,35 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ_p(const int64_t coordinate, const int64_t N, c
     // H_last has the poles with order n
     // final reduction step for H_last
     mul(F, *(dR->get_final_reduction_matrix_J(n)), H_last);
-    for(e = n/p; e != 0 && e >= m; e-- )
+    for(e = n/p; e != 0; e-- )
     {
-        if(verbose)
-            cout<<"e = "<<e<<endl<<"\tadding new terms\n";
+        if(e >= m)
+        {
+            if(verbose)
+                cout<<"e = "<<e<<endl<<"\tadding new terms\n";
 
-        dict_G0 = &dR->tuple_dict[ d * p * e - (n + 1) ];
-        clear(G0);
-        G0.SetLength( dict_G0->size() );
+            dict_G0 = &dR->tuple_dict[ d * p * e - (n + 1) ];
+            clear(G0);
+            G0.SetLength( dict_G0->size() );
 
-        j = e - m;
-        Djm = 0;
-        for( i = j ; i < N ; i++)
-        {
-            bin = binomial(m + i - 1, m - 1) * binomial(i,j);
-            if(j%2 == 0)
-                Djm += bin;
-            else
-                Djm -= bin;
-        }
+            j = e - m;
+            Djm = 0;
+            for( i = j ; i < N ; i++)
+            {
+                bin = binomial(m + i - 1, m - 1) * binomial(i,j);
+                if(j%2 == 0)
+                    Djm += bin;
+                else
+                    Djm -= bin;
+            }
 
-        for( it = fpow[j].begin(); it != fpow[j].end(); it++)
-        {
-            monomial = p * ( it->first + ei + ones ) - ones;
-            G0[ (*dict_G0)[ monomial ] ] += fact * Djm * it->second;
+            for( it = fpow[j].begin(); it != fpow[j].end(); it++)
+            {
+                monomial = p * ( it->first + ei + ones ) - ones;
+                G0[ (*dict_G0)[ monomial ] ] += fact * Djm * it->second;
+            }
+            F += (*(dR->get_final_reduction_matrix_J(p * e))) * G0;
         }
-        F += (*(dR->get_final_reduction_matrix_J(p * e))) * G0;
-
         /*
          * before
          * fact = (p * (m + N - 1))!/(p * e)!
-- 
2.43.0


From 2985820ac6f5d7ee88b8b301d36c62b0626686f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 8/8] fix: the differences of finitediff_flint_nmod cover the
 coefficients of all higher powers

---
 dr_nd/dr_nd.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index f7aa6d0..9e3de3d 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -1911,8 +1911,14 @@ void finitediff_flint_nmod(fmpz * result, fmpz_mat_struct * M_fmpz, const int64_
             }
         }
     }
+    // the differences of order i involve all the M[j] with j >= i
+    for(i = n; i >= 0; i--)
+    {
+        max_row[i] = std::max(max_row[i], max_row[i + 1]);
+        min_col[i] = std::min(min_col[i], min_col[i + 1]);
+    }
     i = n + 1;
-    while( max_row[i] == 0 and min_col[i] == d and i >= 0)
+    while( i > 0 and max_row[i] == 0 and min_col[i] == d )
     {
         //M[i] = 0;
         n--;
-- 
2.43.0

