/*
 * Scenario interpreter: executes histories generated from the TLA+
 * specifications against the real library and records what is observable.
 *
 *   driver SCENARIOS OUT
 *
 * One scenario per forked child ("S id" ... "E"); every operation writes one
 * JSON line to OUT.  Doubles are written as decimal strings that round-trip.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <stdint.h>
#include "ecos.h"
#include "ecos_bb.h"
#ifdef ECOS_VTRACE
#include "ecos_vtrace.h"
#endif

/* ---------------------------------------------------------------- ledger */
void *__real_malloc(size_t); void __real_free(void*);
void *__real_calloc(size_t,size_t); void *__real_realloc(void*,size_t);

typedef struct { char *p; size_t n; int live; int caller; } blk;
static blk *BL; static long nbl, cbl;
static int poison = 0xA5;
static long led_alloc, led_free, led_badfree, led_double, led_callerfree, led_oob, led_uaf;
static volatile int in_lib;
#define CAN 32
#ifdef DRIVER_ASAN
#define USECAN 0
#else
#define USECAN CAN
#endif
static void *led_new(size_t n, int zero, int caller)
{
    char *raw; long i;
    if (n > ((size_t)1<<32)) return NULL;
    raw = __real_malloc(n + 2*USECAN + 1);
    memset(raw, 0xC3, USECAN); memset(raw+USECAN+n, 0xC3, USECAN);
    memset(raw+USECAN, zero ? 0 : poison, n);
    if (nbl==cbl) { cbl = cbl?2*cbl:1024; BL = __real_realloc(BL, cbl*sizeof(blk)); }
    BL[nbl].p = raw+USECAN; BL[nbl].n = n; BL[nbl].live = 1; BL[nbl].caller = caller; nbl++;
    (void)i;
    if (!caller) led_alloc++;
    return raw+USECAN;
}
static blk *led_find(void *p)
{
    long i; for (i=nbl-1;i>=0;i--) if (BL[i].p==(char*)p) return &BL[i];
    return NULL;
}
static int can_ok(blk *b)
{
    size_t i;
    for (i=0;i<USECAN;i++) if ((unsigned char)b->p[-(long)USECAN+(long)i]!=0xC3 || (unsigned char)b->p[b->n+i]!=0xC3) return 0;
    return 1;
}
static void led_del(void *p)
{
    blk *b;
    if (!p) return;
    b = led_find(p);
    if (!b) { led_badfree++; return; }
    if (b->caller) { led_callerfree++; return; }
    if (!b->live) { led_double++; return; }
    if (!can_ok(b)) led_oob++;
    b->live = 0; led_free++;
#ifdef DRIVER_ASAN
    __real_free(b->p); b->p = NULL;
#else
    memset(b->p, 0xDD, b->n);       /* quarantined: never reused */
#endif
}
void *__wrap_malloc(size_t n) { return in_lib ? led_new(n,0,0) : __real_malloc(n); }
void *__wrap_calloc(size_t a,size_t b) { return in_lib ? led_new(a*b,1,0) : __real_calloc(a,b); }
void *__wrap_realloc(void *p,size_t n)
{
    void *q; blk *b;
    if (!in_lib) return __real_realloc(p,n);
    q = led_new(n,0,0); b = p?led_find(p):NULL;
    if (b && q) { memcpy(q,p,b->n<n?b->n:n); led_del(p); }
    return q;
}
void __wrap_free(void *p) { if (in_lib) led_del(p); else __real_free(p); }
static void led_scan(long *live, long *oob, long *uaf)
{
    long i; size_t k;
    *live=0; *oob=led_oob; *uaf=0;
    for (i=0;i<nbl;i++) {
        if (!BL[i].p) continue;
        if (BL[i].live) { if (!BL[i].caller) (*live)++; if (!can_ok(&BL[i])) (*oob)++; }
#ifndef DRIVER_ASAN
        else { for (k=0;k<BL[i].n;k++) if ((unsigned char)BL[i].p[k]!=0xDD) { (*uaf)++; break; } if (!can_ok(&BL[i])) (*oob)++; }
#endif
    }
    (void)k;
}

/* ---------------------------------------------------------------- output */
static FILE *O;
static void jd(double v)
{
    if (isnan(v)) fputs("\"nan\"",O);
    else if (isinf(v)) fputs(v>0?"\"inf\"":"\"-inf\"",O);
    else if (v==(double)(long)v && fabs(v)<1e9) fprintf(O,"\"%ld\"",(long)v);
    else fprintf(O,"\"%.17g\"",v);
}
static void jv(const char*k,const pfloat*v,long n)
{
    long i; fprintf(O,",\"%s\":[",k);
    if (v) for(i=0;i<n;i++){ if(i)fputc(',',O); jd(v[i]); }
    fputc(']',O);
}
static void ji(const char*k,const idxint*v,long n)
{
    long i; fprintf(O,",\"%s\":[",k);
    if (v) for(i=0;i<n;i++) fprintf(O,"%s%ld",i?",":"",(long)v[i]);
    fputc(']',O);
}
static void js(const char*k,double v){ fprintf(O,",\"%s\":",k); jd(v); }
static void jint(const char*k,long v){ fprintf(O,",\"%s\":%ld",k,v); }
static void jcnt(const char*k,long v){ jint(k,v<-1||v>1000000?-1:v); }   /* counters nobody has set yet may hold anything */

/* ---------------------------------------------------------------- buffers */
typedef struct {
    int used; idxint n,m,p,l,nq,ne,nG,nA; int anull, gnull;
    idxint *q,*Gjc,*Gir,*Ajc,*Air; pfloat *Gpr,*Apr,*c,*h,*b;
} buf;
#define NB 16
#define NW 6
static buf B[NB];
typedef struct {
    int used, bb; pwork *w; ecos_bb_pwork *bw; int b; int trace;
    pfloat *kx,*ky,*ks,*kz; int keep; idxint n,m,p; idxint *bi,*ii; long nb,ni; settings_bb *stg;
    int inj; long inj_at; double inj_arg;
} slot;
static slot W[NW];
static int cur = -1;           /* slot being solved */
static long itcount;

/* ---------------------------------------------------------------- tokens */
static char *tok; 
static char *nt(void){ char *t = strtok(NULL," \t\r\n"); if(!t){fprintf(stderr,"driver: missing token\n"); exit(3);} return t; }
static char *ntx(void){ return strtok(NULL," \t\r\n"); }
static long ni_(void){ return strtol(nt(),NULL,10); }
static double nd(void){ return strtod(nt(),NULL); }
static pfloat* rdv(long n){ long i; pfloat*v=led_new((n)*sizeof(pfloat),0,1); for(i=0;i<n;i++) v[i]=nd(); return v; }
static idxint* riv(long n){ long i; idxint*v=led_new((n)*sizeof(idxint),0,1); for(i=0;i<n;i++) v[i]=ni_(); return v; }

/* ---------------------------------------------------------------- signals */
static volatile int callerhits;
static void hA(int s){ (void)s; callerhits++; }
static struct sigaction hset;    /* what the caller installed */
static void install(void(*f)(int),int fl,int mask)
{
    memset(&hset,0,sizeof hset); sigemptyset(&hset.sa_mask); if(mask) sigaddset(&hset.sa_mask,mask);
    hset.sa_handler=f; hset.sa_flags=fl; sigaction(SIGINT,&hset,NULL); sigaction(SIGINT,NULL,&hset);
}
static const char* hstate(void)
{
    struct sigaction a; int i; sigaction(SIGINT,NULL,&a);
    if (a.sa_handler==hset.sa_handler) {       /* the same handler must come back as it was */
        if (a.sa_flags!=hset.sa_flags) return "flags";
        for (i=1;i<32;i++) if (sigismember(&a.sa_mask,i)!=sigismember(&hset.sa_mask,i)) return "mask";
    }
    if (a.sa_handler==SIG_DFL) return "dfl";
    if (a.sa_handler==SIG_IGN) return "ign";
    if (a.sa_handler==hA) return "caller";
    return "lib";
}

/* ---------------------------------------------------------------- stats */
static void jinfo(stats*f)
{
    fprintf(O,"{\"iter\":%ld",(long)f->iter);
    js("pcost",f->pcost); js("dcost",f->dcost); js("pres",f->pres); js("dres",f->dres);
    js("pinf",f->pinf); js("dinf",f->dinf); js("pinfres",f->pinfres); js("dinfres",f->dinfres);
    js("gap",f->gap); js("relgap",f->relgap); js("mu",f->mu); js("kapovert",f->kapovert);
    js("step",f->step); js("sigma",f->sigma); js("centrality",f->centrality); jcnt("cb",f->cb);
    js("step_aff",f->step_aff); jcnt("nitref1",f->nitref1); jcnt("nitref2",f->nitref2); jcnt("nitref3",f->nitref3);
    jcnt("cob",f->cob); jcnt("pb",f->pb); jcnt("db",f->db); jcnt("affBack",f->affBack); jcnt("cmbBack",f->cmbBack);
    fputc('}',O);
}
static char *evbuf; static size_t evlen; static FILE *EV;
static int nev, nbbev, nfail, ninacc;
static int raised; static long raised_at, lates;

static void inject(slot*s,pwork*w)
{
    long i,k;
    switch(s->inj){
    case 1: raise(SIGINT); raised=1; raised_at=itcount+1; break;
    case 2: /* push the primal slack of a cone outside */
        for(i=0;i<w->m;i++) w->s[i] = -fabs(w->s[i])-1; break;
    case 3: for(i=0;i<w->m;i++) w->z[i] = -fabs(w->z[i])-1; break;
    case 4: for(i=0;i<w->n;i++) w->x[i] = NAN; w->info->pcost=NAN; break;
    case 5: for(i=0;i<w->m;i++) w->s[i] = NAN; break;
    case 6: w->info->pres = 1e300; break;          /* safeguard */
    case 7: w->info->gap = -1; break;              /* safeguard */
    case 8: w->info->step = STEPMIN*GAMMA; break;  /* stuck line search */
    case 9: k = w->C->lpc->p; if (w->C->nsoc>0) w->s[k] = -1; else for(i=0;i<w->m;i++) w->s[i]=-1; break;
    case 10: for(i=0;i<w->m;i++) w->z[i] = NAN; break;
    }
}
/* a setback: this iterate and (more so) the next look worse by every measure;
   13: and then the step is minimal, 14: the cost is not a number */
static void setback(slot*s,pwork*w)
{
    double f = itcount==s->inj_at ? 3 : 30; stats*i=w->info;
    i->gap*=f; i->mu*=f; i->pres*=f; i->dres*=f; i->kapovert*=f;
    if (i->pinfres!=ECOS_NAN) i->pinfres*=f;
    if (itcount>s->inj_at) { if (s->inj==13) i->step=STEPMIN*GAMMA; else if (s->inj==14) i->pcost=NAN; }
}

#ifdef ECOS_VTRACE
/* relaxations solved since the last event of the search */
static char *rlbuf; static size_t rllen; static FILE *RL; static int nrl;
static void jbound(double v){ double r=rint(v); if(fabs(v-r)<1e-9*(1+fabs(r))) fprintf(O,"%.0f",r+0.0); else fprintf(O,"999999999"); }
static void relaxed(ecos_bb_pwork*p,long flag)
{
    FILE*save=O; pwork*w=p->ecos_prob; long j,nz=p->num_bool_vars+p->num_int_vars;
    if(!RL) RL=open_memstream(&rlbuf,&rllen);
    O=RL; fprintf(O,"%s{\"fl\":%ld",nrl++?",":"",flag); jv("x",w->x,w->n);
    fprintf(O,",\"lo\":["); for(j=0;j<nz;j++){ if(j)fputc(',',O); jbound(-w->h[2*j]*w->Gequil[2*j]); }
    fprintf(O,"],\"hi\":["); for(j=0;j<nz;j++){ if(j)fputc(',',O); jbound(w->h[2*j+1]*w->Gequil[2*j+1]); }
    fprintf(O,"]}"); O=save;
}
static void relaxations(void)
{
    if(RL){ fclose(RL); RL=NULL; }
    fprintf(O,",\"rel\":[%s]",rlbuf?rlbuf:""); free(rlbuf); rlbuf=NULL; nrl=0;
}
static void jpc(const char*k,ecos_bb_pwork*p)
{
    long j,q; fprintf(O,",\"%s\":{",k);
    for(q=0;q<2;q++){
        fprintf(O,"%s\"s%d\":[",q?",":"",(int)q);
        for(j=0;j<p->num_bool_vars;j++){ if(j)fputc(',',O); jd(p->pseudocost_bin_sum[2*j+q]); }
        for(j=0;j<p->num_int_vars;j++){ if(j||p->num_bool_vars)fputc(',',O); jd(p->pseudocost_int_sum[2*j+q]); }
        fprintf(O,"],\"n%d\":[",(int)q);
        for(j=0;j<p->num_bool_vars;j++) fprintf(O,"%s%ld",j?",":"",(long)p->pseudocost_bin_cnt[2*j+q]);
        for(j=0;j<p->num_int_vars;j++) fprintf(O,"%s%ld",j||p->num_bool_vars?",":"",(long)p->pseudocost_int_cnt[2*j+q]);
        fputc(']',O);
    }
    fputc('}',O);
}
static void bbtable(ecos_bb_pwork*p,int lev)
{
    long i,j;
    fprintf(O,",\"iter\":%ld,\"nf\":%d,\"ra\":%d",(long)p->iter,nfail,raised); js("L",p->global_L); js("U",p->global_U);
    fprintf(O,",\"nodes\":[");
    for(i=0;i<=p->iter && i<p->stgs->maxit;i++){
        fprintf(O,"%s{\"st\":%d",i?",":"",(int)p->nodes[i].status);
        if(lev>1 && p->nodes[i].status==MI_SOLVED_BRANCHABLE){ jcnt("sp",p->nodes[i].split_idx); js("sv",p->nodes[i].split_val); } else if(lev>1) fprintf(O,",\"sp\":-1,\"sv\":0"); js("L",p->nodes[i].L); js("U",p->nodes[i].U);
        fprintf(O,",\"lo\":[");
        for(j=0;j<p->num_bool_vars;j++){ int v=get_bool_node_id(i,p)[j]; fprintf(O,"%s%d",j?",":"",v==MI_ONE?1:0); }
        for(j=0;j<p->num_int_vars;j++){ if(j||p->num_bool_vars)fputc(',',O); fprintf(O,"%.0f",-get_int_node_id(i,p)[2*j]); }
        fprintf(O,"],\"hi\":[");
        for(j=0;j<p->num_bool_vars;j++){ int v=get_bool_node_id(i,p)[j]; fprintf(O,"%s%d",j?",":"",v==MI_ZERO?0:1); }
        for(j=0;j<p->num_int_vars;j++){ if(j||p->num_bool_vars)fputc(',',O); fprintf(O,"%.0f",get_int_node_id(i,p)[2*j+1]); }
        fprintf(O,"]}");
    }
    fputc(']',O);
    jv("incx", isinf(p->global_U)?NULL:p->x, p->ecos_prob->n);
}
static void cb(int ev, void*obj, long arg)
{
    FILE *save=O; int sl=in_lib; slot*s;
    if (cur<0) return;
    s=&W[cur]; in_lib=0;
    if (ev==ECOS_VT_STEP && s->inj==11 && itcount-1==s->inj_at) { raise(SIGINT); raised=1; raised_at=itcount; }
    else if (ev==ECOS_VT_LATE && s->inj==12 && lates++==s->inj_at) { raise(SIGINT); raised=1; raised_at=itcount; }
    else if (ev==ECOS_VT_ITER) {
        pwork*w=obj;
        if ((s->bb? (w==s->bw->ecos_prob):(w==s->w))) {
            if (s->inj>12) { if (itcount==s->inj_at || itcount==s->inj_at+1) setback(s,w); }
            else if (s->inj && itcount==s->inj_at) inject(s,w);
            if (s->trace>0 && !s->bb && EV) {
                O=EV; fprintf(O,"%s{\"i\":%ld,\"best\":%ld,\"sz\":%ld",nev?",":"",(long)w->info->iter,(long)(w->info->iter>0?w->best_info->iter:-1),0L);
                js("tau",w->tau); js("kap",w->kap); js("cx",w->cx); js("by",w->by); js("hz",w->hz); js("rt",w->rt);
                fprintf(O,",\"info\":"); jinfo(w->info);
                if (s->trace>1){ jv("x",w->x,w->n); jv("y",w->y,w->p); jv("s",w->s,w->m); jv("z",w->z,w->m);
                    jv("rx",w->rx,w->n); jv("ry",w->p>0?w->ry:NULL,w->p>0?w->p:0); jv("rz",w->rz,w->m); }
                fputc('}',O); nev++; O=save;
            }
            itcount++;
        }
    } else if (ev==ECOS_VT_EXIT && s->bb) {       /* relaxations that did not converge */
        if (s->trace>1 && EV && nbbev<400) relaxed(s->bw,arg);
        if (arg<0 && arg!=-4) nfail++;
        if (arg>=10) ninacc++;
    } else if (s->bb && EV && s->trace>0 && (ev==ECOS_VT_BB_BOUND||ev==ECOS_VT_BB_NEXT||ev==ECOS_VT_BB_BRANCH)) {
        if (nbbev < 400) {
            O=EV; fprintf(O,"%s{\"ev\":\"%s\",\"node\":%ld",nbbev?",":"", ev==ECOS_VT_BB_BOUND?"bound":ev==ECOS_VT_BB_NEXT?"next":"branch",arg);
            bbtable((ecos_bb_pwork*)obj,s->trace); if(s->trace>1){ jpc("pc",obj); relaxations(); }
            fputc('}',O); O=save;
        }
        nbbev++;
    }
    in_lib=sl;
}
#endif

/* what was printed since pos, line by line, as words and numbers */
static void jprinted(long pos)
{
    static char b[400000]; char *l,*t,*sl,*st; long k=0,n=pread(1,b,sizeof b-1,pos); int first=1;
    if(n<0) n=0;
    b[n]=0;
    fprintf(O,",\"txt\":[");
    for(l=strtok_r(b,"\n",&sl);l;l=strtok_r(NULL,"\n",&sl)){
        int w=0;
        for(t=strtok_r(l," \t\r\b=(),:",&st);t;t=strtok_r(NULL," \t\r\b=(),:",&st)){
            char*e; double v=strtod(t,&e); char*c;
            if(!w) fputs(first?"[":",[",O); else fputc(',',O);
            if(*e==0 && e!=t){ if(isnan(v)) fputs("\"nan\"",O); else if(isinf(v)) fputs(v>0?"\"inf\"":"\"-inf\"",O); else fprintf(O,"\"%.17g\"",v); }
            else { for(c=t;*c;c++) if(*c=='"'||*c=='\\'||*c<32) *c='?'; fprintf(O,"\"%s\"",t); }
            w=1; first=0; k++;
        }
        if(w) fputc(']',O);
    }
    fputc(']',O); (void)k;
}
static double now_(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static double wsetup, wsolve;

static int dead;                /* a setup was refused: end the history */
static long outpos(void){ fflush(stdout); fflush(stderr); return (long)lseek(1,0,SEEK_CUR); }

static void jarrays(buf*b)
{
    jv("Gpr",b->Gpr,b->nG); jv("Apr",b->Apr,b->nA); jv("c",b->c,b->n); jv("h",b->h,b->m); jv("b",b->b,b->p);
    ji("Gjc",b->Gjc,b->n+1); ji("Gir",b->Gir,b->nG); ji("Ajc",b->anull?NULL:b->Ajc,b->n+1); ji("Air",b->Air,b->nA); ji("q",b->q,b->nq);
}

static void set_stg(settings*g,const char*nm,double v)
{
#define F(x) if(!strcmp(nm,#x)){g->x=v;return;}
    F(gamma)F(delta)F(eps)F(feastol)F(abstol)F(reltol)F(feastol_inacc)F(abstol_inacc)F(reltol_inacc)
    F(nitref)F(maxit)F(verbose)F(max_bk_iter)F(bk_scale)F(centrality)
#undef F
    fprintf(stderr,"driver: unknown setting %s\n",nm); exit(3);
}
static void jstg(pwork*w)
{
    settings*g=w->stgs;
    fprintf(O,",\"stg\":{\"maxit\":%ld,\"verbose\":%ld,\"max_bk_iter\":%ld,\"nitref\":%ld",(long)g->maxit,(long)g->verbose,(long)g->max_bk_iter,(long)g->nitref);
    js("gamma",g->gamma); js("delta",g->delta); js("eps",g->eps); js("bk_scale",g->bk_scale); js("centrality",g->centrality);
    js("feastol",g->feastol); js("abstol",g->abstol); js("reltol",g->reltol);
    js("feastol_inacc",g->feastol_inacc); js("abstol_inacc",g->abstol_inacc); js("reltol_inacc",g->reltol_inacc);
    fputc('}',O);
}

static void jbbstg(settings_bb*g)
{
    fprintf(O,",\"bbstg\":{\"maxit\":%ld,\"verbose\":%ld,\"eta\":%ld,\"strat\":%d,\"nsel\":%d",(long)g->maxit,(long)g->verbose,(long)g->reliable_eta,(int)g->branching_strategy,(int)g->node_selection_method);
    js("abs",g->abs_tol_gap); js("rel",g->rel_tol_gap); js("itol",g->integer_tol); fputc('}',O);
}

static void run_op(char*op,long line)
{
    long i; long pos0 = outpos(); int k; char *o=op;
    fprintf(O,"{\"op\":\"%s\",\"line\":%ld",op,line);
    if (!strcmp(op,"prob")) {
        k=ni_(); buf*b=&B[k]; memset(b,0,sizeof *b); b->used=1;
        b->n=ni_(); b->m=ni_(); b->p=ni_(); b->l=ni_(); b->nq=ni_(); b->q=riv(b->nq); b->ne=ni_(); b->anull=ni_(); b->gnull=b->anull>>1&1; b->anull&=1;
        b->Gjc=riv(b->n+1); b->nG=b->Gjc[b->n]; b->Gir=riv(b->nG); b->Gpr=rdv(b->nG);
        if(!b->anull){ b->Ajc=riv(b->n+1); b->nA=b->Ajc[b->n]; b->Air=riv(b->nA); b->Apr=rdv(b->nA); }
        b->c=rdv(b->n); b->h=rdv(b->m); b->b=b->anull?NULL:rdv(b->p);
        jint("buf",k);
    } else if (!strcmp(op,"write")) { /* caller rewrites one of its arrays */
        k=ni_(); buf*b=&B[k]; char*f=nt(); pfloat*v; long n;
        if(!strcmp(f,"Gpr")){v=b->Gpr;n=b->nG;} else if(!strcmp(f,"Apr")){v=b->Apr;n=b->nA;}
        else if(!strcmp(f,"c")){v=b->c;n=b->n;} else if(!strcmp(f,"h")){v=b->h;n=b->m;} else {v=b->b;n=b->p;}
        for(i=0;i<n;i++) v[i]=nd();
        jint("buf",k); fprintf(O,",\"field\":\"%s\"",f);
    } else if (!strcmp(op,"dump")) {
        k=ni_(); jint("buf",k); jarrays(&B[k]);
    } else if (!strcmp(op,"setup")) {
        k=ni_(); slot*s=&W[k]; long bk=ni_(); buf*b=&B[bk]; memset(s,0,sizeof *s); s->used=1; s->b=bk;
        s->n=b->n;s->m=b->m;s->p=b->p;
        { idxint m=b->m;
        double t0=now_(); in_lib=1; s->w=ECOS_setup(b->n,m,b->p,b->l,b->nq,b->q,b->ne,b->gnull?NULL:b->Gpr,b->gnull?NULL:b->Gjc,b->gnull?NULL:b->Gir,b->Apr,b->Ajc,b->Air,b->c,b->gnull?NULL:b->h,b->b); in_lib=0; wsetup=now_()-t0; }
        if(s->w){ js("tsetup",s->w->info->tsetup); js("wall",wsetup); }
        jint("w",k); jint("buf",bk); jint("null",s->w==NULL);
        if(s->w){ jstg(s->w); s->w->stgs->verbose=0; } else dead=1;
    } else if (!strcmp(op,"badsetup")) {      /* dimensions that do not add up: must be refused */
        k=ni_(); long bk=ni_(); buf*b=&B[bk]; idxint m=ni_(); int bb=ni_(); pwork*w=NULL; ecos_bb_pwork*bw=NULL;
        pfloat *h=led_new((m+8)*sizeof(pfloat),1,1); for(i=0;i<b->m&&i<m;i++) h[i]=b->h[i];
        in_lib=1;
        if (bb) { static idxint one[1]={0}; bw=ECOS_BB_setup(b->n,m,b->p,b->l,b->nq,b->q,b->ne,b->Gpr,b->Gjc,b->Gir,b->Apr,b->Ajc,b->Air,b->c,h,b->b,1,one,0,NULL,NULL); if(bw) ECOS_BB_cleanup(bw,0); }
        else { w=ECOS_setup(b->n,m,b->p,b->l,b->nq,b->q,b->ne,b->Gpr,b->Gjc,b->Gir,b->Apr,b->Ajc,b->Air,b->c,h,b->b); if(w) ECOS_cleanup(w,0); }
        in_lib=0; jint("w",k); jint("buf",bk); jint("null",w==NULL&&bw==NULL);
    } else if (!strcmp(op,"inplace")) {       /* caller rewrites the attached arrays and calls the full update */
        k=ni_(); slot*s=&W[k]; buf*b=&B[s->b]; jint("w",k); jint("buf",s->b);
        int fr=ni_(); buf old=*b; long a0;
        pfloat **F[5]={&b->Gpr,&b->Apr,&b->c,&b->h,&b->b}; long N[5]={b->nG,b->nA,b->n,b->m,b->b?b->p:0};
        for(a0=0;a0<5;a0++) if((fr>>a0&1) && *F[a0]) *F[a0]=led_new(N[a0]*sizeof(pfloat),0,1);
        for(a0=0;a0<5;a0++) for(i=0;i<N[a0];i++) (*F[a0])[i]=nd();
        in_lib=1; ECOS_updateData(s->w,b->Gpr,b->Apr,b->c,b->h,b->b); in_lib=0;
        jint("fresh",fr); fprintf(O,",\"old\":{\"k\":0"); { const char*nm[5]={"Gpr","Apr","c","h","b"}; pfloat*ov[5]={old.Gpr,old.Apr,old.c,old.h,old.b};
          for(a0=0;a0<5;a0++) if((fr>>a0&1) && *F[a0]) jv(nm[a0],ov[a0],N[a0]); } fputc('}',O);
    } else if (!strcmp(op,"stg")) {
        k=ni_(); char*nm=nt(); double v=nd(); jint("w",k);
        set_stg(W[k].bb?W[k].bw->ecos_stgs:W[k].w->stgs,nm,v); fprintf(O,",\"name\":\"%s\"",nm); js("val",v);
    } else if (!strcmp(op,"bbstg")) {   /* in the caller's structure, or the workspace's if there is none */
        k=ni_(); char*nm=nt(); double v=nd(); settings_bb*g=W[k].stg?W[k].stg:W[k].bw->stgs; jint("w",k); fprintf(O,",\"name\":\"%s\"",nm); js("val",v);
        if(!strcmp(nm,"maxit")) g->maxit=(idxint)v; else if(!strcmp(nm,"abs")) g->abs_tol_gap=v; else if(!strcmp(nm,"rel")) g->rel_tol_gap=v; else if(!strcmp(nm,"itol")) g->integer_tol=v;
        else if(!strcmp(nm,"strat")) g->branching_strategy=(int)v; else if(!strcmp(nm,"eta")) g->reliable_eta=(idxint)v; else if(!strcmp(nm,"nsel")) g->node_selection_method=(int)v; else exit(3);
    } else if (!strcmp(op,"trace")) { k=ni_(); W[k].trace=ni_(); jint("w",k);
    } else if (!strcmp(op,"inj")) { k=ni_(); W[k].inj=ni_(); W[k].inj_at=ni_(); jint("w",k); jint("kind",W[k].inj); jint("at",W[k].inj_at);
    } else if (!strcmp(op,"solve")||!strcmp(op,"bbsolve")) {
        k=ni_(); slot*s=&W[k]; idxint flag; pwork*w=s->bb?s->bw->ecos_prob:s->w;
        const char*hb=hstate(); int hits=callerhits;
        cur=k; itcount=0; raised=0; raised_at=0; lates=0; nev=0; nbbev=0; nfail=0; ninacc=0; EV=open_memstream(&evbuf,&evlen);
        if(s->bb && s->trace>1) jpc("pc0",s->bw);
        long pos1=outpos(); double t0=now_();
        in_lib=1; if(s->bb) flag=ECOS_BB_solve(s->bw); else flag=ECOS_solve(s->w); in_lib=0; wsolve=now_()-t0;
        cur=-1; fclose(EV); EV=NULL;
        jint("w",k); jint("buf",s->b); jint("flag",flag); jint("injdone", s->inj==11||s->inj==12 ? raised : s->inj && itcount>s->inj_at);
        jint("inj",s->inj==11?1:s->inj); jint("injat",s->inj==11?s->inj_at+1:s->inj_at); s->inj=0; jint("aft",raised?itcount-raised_at:0);
        fprintf(O,",\"hbefore\":\"%s\",\"hafter\":\"%s\"",hb,hstate()); jint("callerhits",callerhits-hits);
        jint("lev",s->trace); jint("nev",nev); jint("nbbev",nbbev);
        if(s->bb){ ecos_bb_pwork*p=s->bw; jv("x",p->x,isinf(p->global_U)?0:w->n); jv("ex",w->x,isinf(p->global_U)?0:w->n); js("U",p->global_U); js("L",p->global_L); jint("bbiter",p->iter); jint("bbmaxit",p->stgs->maxit); jint("nfail",nfail); jint("ninacc",ninacc);
            fprintf(O,",\"info\":"); if(!isinf(p->global_U)) jinfo(p->info); else fprintf(O,"{}");
            fprintf(O,",\"evs\":[%s]",evbuf);
            jv("y",p->y,isinf(p->global_U)?0:w->p); jv("s",p->s,isinf(p->global_U)?0:w->m); jv("z",p->z,isinf(p->global_U)?0:w->m); jstg(w); jbbstg(p->stgs); }
        else { jv("x",w->x,w->n); jv("y",w->y,w->p); jv("s",w->s,w->m); jv("z",w->z,w->m); js("tau",w->tau); js("kap",w->kap);
            fprintf(O,",\"info\":"); jinfo(w->info);
            jv("xe",w->xequil,w->n); jv("Ae",w->Aequil,w->p); jv("Ge",w->Gequil,w->m); jstg(w);
            fprintf(O,",\"iters\":[%s]",evbuf); js("tsetup",w->info->tsetup); js("tsolve",w->info->tsolve); js("wall",wsolve); }
        outpos(); if(s->trace>0) jprinted(pos1);
        if(RL) fclose(RL);
        RL=NULL; free(rlbuf); rlbuf=NULL; nrl=0;
        free(evbuf);
    } else if (!strcmp(op,"updh")||!strcmp(op,"updc")) {
        k=ni_(); long ix=ni_(); double v=nd(); jint("w",k); jint("idx",ix); js("val",v);
        in_lib=1; if(op[3]=='h') ecos_updateDataEntry_h(W[k].w,ix,v); else ecos_updateDataEntry_c(W[k].w,ix,v); in_lib=0;
    } else if (!strcmp(op,"bbupdh")||!strcmp(op,"bbupdc")) {
        k=ni_(); long ix=ni_(); double v=nd(); jint("w",k); jint("idx",ix); js("val",v);
        in_lib=1; if(op[5]=='h') updateDataEntry_h(W[k].bw,ix,v); else updateDataEntry_c(W[k].bw,ix,v); in_lib=0;
    } else if (!strcmp(op,"upd")) {
        k=ni_(); long bk=ni_(); buf*b=&B[bk]; jint("w",k); jint("buf",bk);
        in_lib=1; ECOS_updateData(W[k].w,b->Gpr,b->Apr,b->c,b->h,b->b); in_lib=0; W[k].b=bk;
    } else if (!strcmp(op,"cleanup")) {
        k=ni_(); int keep=ni_(); slot*s=&W[k];
        s->keep=keep; s->kx=s->w->x; s->ky=s->w->y; s->ks=s->w->s; s->kz=s->w->z;
        in_lib=1; ECOS_cleanup(s->w,keep); in_lib=0; s->w=NULL;
        jint("w",k); jint("keep",keep); jint("buf",s->b);
        if(keep>0) jv("x",s->kx,s->n); if(keep>1) jv("y",s->ky,s->p); if(keep>2) jv("s",s->ks,s->m); if(keep>3) jv("z",s->kz,s->m);
    } else if (!strcmp(op,"freekept")) {
        k=ni_(); slot*s=&W[k]; jint("w",k); in_lib=1;
        if(s->keep>0) free(s->kx); if(s->keep>1) free(s->ky); if(s->keep>2) free(s->ks); if(s->keep>3) free(s->kz);
        in_lib=0; s->keep=0;
    } else if (!strcmp(op,"bbsetup")) {
        k=ni_(); slot*s=&W[k]; long bk=ni_(); buf*b=&B[bk]; memset(s,0,sizeof *s); s->used=1; s->bb=1; s->b=bk;
        s->n=b->n;s->m=b->m;s->p=b->p;
        s->nb=ni_(); s->bi=riv(s->nb); s->ni=ni_(); s->ii=riv(s->ni);
        if(ni_()){ s->stg=led_new(sizeof(settings_bb),1,1); settings_bb*g=s->stg;
            g->maxit=ni_(); g->verbose=0; g->abs_tol_gap=nd(); g->rel_tol_gap=nd(); g->integer_tol=nd(); g->branching_strategy=ni_(); g->reliable_eta=ni_(); g->node_selection_method=ni_(); }
        in_lib=1; s->bw=ECOS_BB_setup(b->n,b->m,b->p,b->l,b->nq,b->q,b->ne,b->Gpr,b->Gjc,b->Gir,b->Apr,b->Ajc,b->Air,b->c,b->h,b->b,s->nb,s->bi,s->ni,s->ii,s->stg); in_lib=0;
        jint("w",k); jint("buf",bk); jint("null",s->bw==NULL); if(s->bw) { jstg(s->bw->ecos_prob); jbbstg(s->bw->stgs); s->bw->stgs->verbose=0; } else dead=1;
    } else if (!strcmp(op,"bbidx")) { k=ni_(); jint("w",k); ji("bi",W[k].bi,W[k].nb); ji("ii",W[k].ii,W[k].ni);
    } else if (!strcmp(op,"bbcleanup")) {
        k=ni_(); int keep=ni_(); slot*s=&W[k]; pwork*w=s->bw->ecos_prob; s->keep=keep; s->kx=w->x; s->ky=w->y; s->ks=w->s; s->kz=w->z; s->m=w->m;
        in_lib=1; ECOS_BB_cleanup(s->bw,keep); in_lib=0; s->bw=NULL; jint("w",k); jint("keep",keep); jint("buf",s->b);
        if(keep>0) jv("x",s->kx,s->n); if(keep>1) jv("y",s->ky,s->p); if(keep>2) jv("s",s->ks,s->m); if(keep>3) jv("z",s->kz,s->m);
    } else if (!strcmp(op,"handler")) { k=ni_(); install(k==0?SIG_DFL:k==2?SIG_IGN:hA, k==3?SA_RESTART|SA_NODEFER:k==4?SA_RESTART:0, k==3?SIGUSR1:k==4?SIGTERM:0); jint("k",k);
    } else if (!strcmp(op,"raise")) { int h0=callerhits; raise(SIGINT); jint("callerhits",callerhits-h0); fprintf(O,",\"h\":\"%s\"",hstate());
    } else if (!strcmp(op,"poison")) { poison=ni_(); jint("byte",poison);
    } else if (!strcmp(op,"srand")) { k=ni_(); srand(k);
    } else if (!strcmp(op,"verbose")) { k=ni_(); int v=ni_(); if(W[k].bb) W[k].bw->stgs->verbose=v; else W[k].w->stgs->verbose=v; jint("w",k); jint("v",v);
    } else if (!strcmp(op,"ledger")) {
        long live,oob,uaf; led_scan(&live,&oob,&uaf);
        jint("live",live); jint("oob",oob); jint("uaf",uaf); jint("alloc",led_alloc); jint("freed",led_free); jint("dbl",led_double); jint("badfree",led_badfree); jint("callerfree",led_callerfree);
    } else { fprintf(stderr,"driver: unknown op %s\n",o); exit(3); }
    jint("out",outpos()-pos0);
    fprintf(O,"}\n"); fflush(O);
}

int main(int argc,char**argv)
{
    FILE *in; char *lines=NULL; size_t cap=0; ssize_t r; long ln=0;
    char **L=NULL; long nl=0, cl=0, i;
    int to = getenv("DRV_TIMEOUT")?atoi(getenv("DRV_TIMEOUT")):20;
    if (argc<3) return 2;
    in=fopen(argv[1],"r"); if(!in) return 2;
    while((r=getline(&lines,&cap,in))>0){ if(nl==cl){cl=cl?2*cl:4096; L=realloc(L,cl*sizeof*L);} L[nl++]=strdup(lines);}    
    fclose(in);
    O=fopen(argv[2],"w"); if(!O) return 2; setvbuf(O,NULL,_IOFBF,1<<16);
    int hangs=0;
    for(i=0;i<nl;){
        if (L[i][0]!='S'){i++;continue;}
        char id[256]; sscanf(L[i]+1," %255s",id);
        long j=i+1; while(j<nl && L[j][0]!='E') j++;
        fprintf(O,"{\"op\":\"begin\",\"id\":\"%s\"}\n",id); fflush(O);
        if(hangs>=3){ fprintf(O,"{\"op\":\"end\",\"id\":\"%s\",\"status\":\"skipped\"}\n",id); i=j+1; continue; }   /* enough is enough */
        pid_t pid=fork();
        if(pid==0){
            struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
            FILE*t=tmpfile(); int keep=dup(2); (void)keep;
            if(t){ dup2(fileno(t),1); dup2(fileno(t),2);} 
            signal(SIGALRM,SIG_DFL); alarm(to);
            install(hA,SA_RESTART,SIGUSR2);
#ifdef ECOS_VTRACE
            ecos_vtrace_cb=cb;
#endif
            for(ln=i+1;ln<j;ln++){ char*copy=strdup(L[ln]); char*op=strtok(copy," \t\r\n"); if(op) run_op(op,ln-i); free(copy); if(dead){fflush(O);_exit(4);} }
            fflush(O); _exit(0);
        }
        int st; waitpid(pid,&st,0);
        fseek(O,0,SEEK_END); if(WIFSIGNALED(st)&&WTERMSIG(st)==SIGALRM) hangs++;
        if(WIFEXITED(st)&&WEXITSTATUS(st)==0) fprintf(O,"{\"op\":\"end\",\"id\":\"%s\",\"status\":\"ok\"}\n",id);
        else if(WIFEXITED(st)) fprintf(O,"\n{\"op\":\"end\",\"id\":\"%s\",\"status\":\"exit%d\"}\n",id,WEXITSTATUS(st));
        else fprintf(O,"\n{\"op\":\"end\",\"id\":\"%s\",\"status\":\"%s%d\"}\n",id,WTERMSIG(st)==SIGALRM?"timeout":"signal",WTERMSIG(st));
        fflush(O);
        i=j+1;
    }
    fclose(O); (void)tok;
    return 0;
}
