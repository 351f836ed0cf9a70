/* Independent clause evaluator used by the oracles (no code of the system under test).
 *
 * int eval_clauses(const char *interp, const char *text, char *verdict, int max, long maxinst)
 *   interp: "n\n" then lines "f name arity v0 v1 ...\n" / "p name arity v0 v1 ...\n"
 *   text:   lines; every line starting with cnf( is one clause  cnf(name, role, (clause)...).
 *   verdict[i] of the i-th clause: T true, F false, N uses a symbol unknown to interp,
 *   S skipped (too many instances), U not understood.
 * Returns the number of clauses.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>

#define MAXSYM 256
#define MAXNODE 200000
#define MAXVAR 16

typedef struct { char kind; const char *name; int len; int arity; int *tab; } sym_t;
typedef struct { int sym; int var; int nargs; int first; int next; } node_t; /* sym<0: variable var */
typedef struct { int pos; int eq; int l, r; } lit_t;

static __thread sym_t syms[MAXSYM];
static __thread int nsym, dom;
static __thread node_t *nodes;
static __thread int nnode;
static __thread const char *vnames[MAXVAR]; static __thread int vlens[MAXVAR]; static __thread int nvar;
static __thread lit_t lits[4000]; static __thread int nlit;
static __thread const char *p, *end;
static __thread int status; /* 0 ok, 'N', 'U' */
static __thread int env[MAXVAR];

static void ws(void) { while(p < end && isspace((unsigned char)*p)) p++; }

static int lookup(char kind, const char *nm, int len, int ar)
{
   for(int i=0; i<nsym; i++)
      if(syms[i].kind == kind && syms[i].len == len && syms[i].arity == ar && !memcmp(syms[i].name, nm, len)) return i;
   return -1;
}

/* raw term: the symbol is resolved later, since f and p share the syntax */
typedef struct { const char *nm; int len; } name_t;
static __thread name_t *names;

static int term(void)
{
   ws();
   if(p >= end || nnode >= MAXNODE-1) { status = 'U'; return -1; }
   int id = nnode++;
   const char *s = p;
   nodes[id].sym = 0; nodes[id].nargs = 0; nodes[id].first = -1; nodes[id].next = -1; nodes[id].var = -1;
   if(*p == '"' || *p == '\'')
   {
      char q = *p++;
      while(p < end && *p != q) { if(*p == '\\') p++; p++; }
      p++;
   }
   else
   {
      while(p < end && (isalnum((unsigned char)*p) || *p == '_' || *p == '$')) p++;
   }
   if(p == s || p > end) { status = 'U'; return -1; }
   int len = p - s;
   if(*s == '\'' && len > 2 && islower((unsigned char)s[1]))
   {  /* 'abc' is abc */
      int plain = 1;
      for(int i=1; i<len-1; i++) if(!isalnum((unsigned char)s[i]) && s[i] != '_') plain = 0;
      if(plain) { s++; len -= 2; }
   }
   names[id].nm = s; names[id].len = len;
   if(isupper((unsigned char)*s))
   {
      int v;
      for(v=0; v<nvar; v++) if(vlens[v] == len && !memcmp(vnames[v], s, len)) break;
      if(v == nvar)
      {
         if(nvar >= MAXVAR) { status = 'S'; return -1; }
         vnames[nvar] = s; vlens[nvar] = len; nvar++;
      }
      nodes[id].sym = -1; nodes[id].var = v;
      return id;
   }
   if(p < end && *p == '(')
   {
      p++;
      int last = -1;
      for(;;)
      {
         int a = term();
         if(status) return -1;
         if(last < 0) nodes[id].first = a; else nodes[last].next = a;
         last = a;
         nodes[id].nargs++;
         ws();
         if(p < end && *p == ',') { p++; continue; }
         if(p < end && *p == ')') { p++; break; }
         status = 'U'; return -1;
      }
   }
   return id;
}

static void resolve(int id, char kind)
{
   if(nodes[id].sym < 0) return;
   int s = lookup(kind, names[id].nm, names[id].len, nodes[id].nargs);
   if(s < 0) { if(!status) status = 'N'; s = 0; }
   nodes[id].sym = s;
   for(int a = nodes[id].first; a >= 0; a = nodes[a].next) resolve(a, 'f');
}

static void literal(void)
{
   int pos = 1;
   ws();
   while(p < end && *p == '~') { pos = !pos; p++; ws(); }
   int par = 0;
   while(p < end && *p == '(') { par++; p++; ws(); }
   int l = term();
   if(status) return;
   ws();
   lit_t *x = &lits[nlit];
   if(nlit >= 3999) { status = 'U'; return; }
   if(p < end && *p == '=') { p++; x->eq = 1; }
   else if(p+1 < end && *p == '!' && p[1] == '=') { p += 2; x->eq = 1; pos = !pos; }
   else x->eq = 0;
   if(x->eq) { x->l = l; x->r = term(); if(status) return; }
   else
   {
      int len = names[l].len; const char *nm = names[l].nm;
      if(nodes[l].sym < 0) { status = 'U'; return; }
      x->l = l; x->r = -1;
      if(len == 6 && !memcmp(nm, "$false", 6)) { x->eq = 2; }
      if(len == 5 && !memcmp(nm, "$true", 5)) { x->eq = 3; }
   }
   ws();
   while(par > 0 && p < end && *p == ')') { par--; p++; ws(); }
   if(par) { status = 'U'; return; }
   x->pos = pos;
   nlit++;
}

static int ev(int id)
{
   if(nodes[id].sym < 0) return env[nodes[id].var];
   int i = 0, m = 1;
   for(int a = nodes[id].first; a >= 0; a = nodes[a].next) { i += m*ev(a); m *= dom; }
   return syms[nodes[id].sym].tab[i];
}

static char one(long maxinst)
{
   nnode = 0; nvar = 0; nlit = 0; status = 0;
   int par = 0;
   ws();
   /* the whole clause may be parenthesised: try to see whether the first ( closes before a | at depth 0 */
   (void)par;
   int outer = 0;
   if(p < end && *p == '(')
   {
      int d = 0; const char *q = p; outer = 1;
      for(; q < end; q++)
      {
         if(*q == '(') d++;
         else if(*q == ')') { d--; if(!d) break; }
         else if(*q == '\'' || *q == '"') { char c = *q++; while(q < end && *q != c) { if(*q == '\\') q++; q++; } }
      }
      q++;
      while(q < end && isspace((unsigned char)*q)) q++;
      if(q >= end || *q == '|' || *q == '=' || *q == '!') outer = 0;
      if(outer) p++;
   }
   for(;;)
   {
      literal();
      if(status) return status;
      ws();
      if(p < end && *p == '|') { p++; continue; }
      break;
   }
   if(outer) { if(p >= end || *p != ')') return 'U'; p++; ws(); }
   if(p >= end || (*p != ')' && *p != ',')) return 'U';
   for(int i=0; i<nlit; i++)
   {
      if(lits[i].eq == 1) { resolve(lits[i].l, 'f'); resolve(lits[i].r, 'f'); }
      else if(!lits[i].eq) resolve(lits[i].l, 'p');
   }
   if(status) return status;
   long inst = 1;
   for(int i=0; i<nvar; i++) { inst *= dom; if(inst > maxinst) return 'S'; }
   for(long k=0; k<inst; k++)
   {
      long x = k;
      for(int i=0; i<nvar; i++) { env[i] = x % dom; x /= dom; }
      int sat = 0;
      for(int i=0; i<nlit && !sat; i++)
      {
         int v;
         switch(lits[i].eq)
         {
         case 0: v = ev(lits[i].l) != 0; break;
         case 1: v = ev(lits[i].l) == ev(lits[i].r); break;
         case 2: v = 0; break;
         default: v = 1; break;
         }
         sat = (v != 0) == (lits[i].pos != 0);
      }
      if(!sat) return 'F';
   }
   return 'T';
}

int eval_clauses(const char *interp, const char *text, char *verdict, int max, long maxinst)
{
   int n = 0;
   nsym = 0;
   nodes = malloc(sizeof(node_t)*MAXNODE);
   names = malloc(sizeof(name_t)*MAXNODE);
   char *s;
   dom = strtol(interp, &s, 10);
   while(*s == '\n') s++;
   while(*s && nsym < MAXSYM)
   {
      sym_t *y = &syms[nsym++];
      y->kind = *s; s += 2;
      y->name = s;
      while(*s != '\t') s++;
      y->len = s - y->name;
      y->arity = strtol(s, &s, 10);
      int sz = 1;
      for(int i=0; i<y->arity; i++) sz *= dom;
      y->tab = malloc(sizeof(int)*sz);
      for(int i=0; i<sz; i++) y->tab[i] = strtol(s, &s, 10);
      while(*s && *s != '\n') s++;
      while(*s == '\n') s++;
   }
   const char *l = text;
   while(*l && n < max)
   {
      const char *e = strchr(l, '\n');
      if(!e) e = l + strlen(l);
      if(!strncmp(l, "cnf(", 4))
      {
         p = l + 4; end = e;
         int commas = 0;
         while(p < end && commas < 2)
         {
            if(*p == '\'') { p++; while(p < end && *p != '\'') { if(*p == '\\') p++; p++; } }
            if(*p == ',') commas++;
            p++;
         }
         verdict[n++] = commas == 2 ? one(maxinst) : 'U';
      }
      l = *e ? e+1 : e;
   }
   for(int i=0; i<nsym; i++) free(syms[i].tab);
   free(nodes); free(names);
   return n;
}
