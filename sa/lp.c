/* Floating point simplex used to guess an infeasible core; every core is re-checked exactly by the caller. */
#include <stdlib.h>
#include <math.h>
#include <string.h>
#define EPS 1e-9
int lp_core (int M, int n, const int *rp, const int *ci, const double *va, const double *k, const unsigned char *strict, int *core, int limit)
{	int W = n + M, i, j, it, res = -1 ;
	double *T = calloc ((size_t) M * W + 1, sizeof (double)) ;
	double *b0 = calloc (W + 1, sizeof (double)), *b1 = calloc (W + 1, sizeof (double)) ;
	double *l0 = calloc (W + 1, sizeof (double)), *l1 = calloc (W + 1, sizeof (double)) ;
	int *bas = malloc (sizeof (int) * (M + 1)), *isb = calloc (W + 1, sizeof (int)) ;
	for (i = 0 ; i < M ; i++)
	{	double mx = 0 ;
		for (j = rp [i] ; j < rp [i + 1] ; j++) if (fabs (va [j]) > mx) mx = fabs (va [j]) ;
		if (mx == 0) mx = 1 ;
		for (j = rp [i] ; j < rp [i + 1] ; j++) T [(size_t) i * W + ci [j]] = va [j] / mx ;
		bas [i] = n + i ; isb [n + i] = 1 ;
		l0 [n + i] = -k [i] / mx ; l1 [n + i] = strict [i] ? 1 : 0 ;
		} ;
	for (it = 0 ; it < limit ; it++)
	{	int r = -1, p = -1 ; double best = 0 ;
		for (i = 0 ; i < M ; i++)
		{	int v = bas [i] ; double d = l0 [v] - b0 [v], e = l1 [v] - b1 [v], tol = EPS * (1 + fabs (l0 [v])) ;
			if (v < n) continue ;
			if (d > tol || (d > -tol && e > EPS))
			{	double s = d > tol ? d + 1 : e ;
				if (it > 80) { if (r < 0 || v < bas [r]) r = i ; }
				else if (s > best || r < 0) { best = s ; r = i ; }
				} ;
			} ;
		if (r < 0) break ;		/* feasible */
		double *R = T + (size_t) r * W ;
		{	double pb = 0 ;
			for (j = 0 ; j < n ; j++) if (!isb [j] && fabs (R [j]) > 1e-8 && fabs (R [j]) > pb) { pb = fabs (R [j]) ; p = j ; }
			if (p < 0)
				for (j = n ; j < W ; j++)
				{	if (isb [j] || fabs (R [j]) < 1e-8) continue ;
					if (R [j] > 0) { p = j ; break ; }
					if (b0 [j] > l0 [j] + EPS * (1 + fabs (l0 [j])) || (b0 [j] > l0 [j] - EPS * (1 + fabs (l0 [j])) && b1 [j] > l1 [j] + EPS)) { p = j ; break ; }
					} ;
			} ;
		if (p < 0)
		{	res = 0 ; core [res++] = bas [r] - n ;
			for (j = n ; j < W ; j++) if (!isb [j] && fabs (R [j]) >= 1e-8) core [res++] = j - n ;
			break ;
			} ;
		{	double a = R [p], t0, t1 ; int v = bas [r] ;
			t0 = (l0 [v] - b0 [v]) / a ; t1 = (l1 [v] - b1 [v]) / a ;
			b0 [v] = l0 [v] ; b1 [v] = l1 [v] ; b0 [p] += t0 ; b1 [p] += t1 ;
			for (i = 0 ; i < M ; i++) if (i != r)
			{	double c = T [(size_t) i * W + p] ;
				if (c != 0) { b0 [bas [i]] += t0 * c ; b1 [bas [i]] += t1 * c ; }
				} ;
			/* v = a*p + rest  ->  p = v/a - rest/a */
			for (j = 0 ; j < W ; j++) R [j] = -R [j] / a ;
			R [p] = 0 ; R [v] = 1 / a ;
			for (i = 0 ; i < M ; i++) if (i != r)
			{	double *Q = T + (size_t) i * W, c = Q [p] ;
				if (c != 0)
				{	Q [p] = 0 ;
					for (j = 0 ; j < W ; j++) if (R [j] != 0) { Q [j] += c * R [j] ; if (fabs (Q [j]) < 1e-13) Q [j] = 0 ; }
					} ;
				} ;
			isb [v] = 0 ; isb [p] = 1 ; bas [r] = p ;
			} ;
		} ;
	free (T) ; free (b0) ; free (b1) ; free (l0) ; free (l1) ; free (bas) ; free (isb) ;
	return res ;
}
