// Oracles over what a viewer reported about a received stream, against what was signed.
#ifndef CHAN_H
#define CHAN_H
#include "common.h"
extern unit_t R[MAXN];
extern int nR;
void ins(int at, unit_t u);
void del(int at);
int pick(const char *name, int lo, int hi, char cls);   // cls 'p' picture, 'S' sei, '*' any
bool same(unit_t a, unit_t b);
// U[0..nU) is the signed stream, R[0..nR) the received one, v a viewer that consumed R.
void check_sound(viewer_t *v);
// Called after each report.
void check_report(viewer_t *v);
void check_flagged(viewer_t *v, int last);
#endif
