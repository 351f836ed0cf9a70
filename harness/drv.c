/* Driver that exposes operations of E's libraries to the generated checks, one command per input line.
 *
 *  P <clause>                 parse a clause and add it to the problem
 *  ocb type|precgen|wgen|constw|prec|weights|defs   create the ordering, print weights and precedence
 *  cmp s ; t                  compare two terms
 *  cmps s ; t ; x ; u ; ...   compare them under a substitution
 *  mgu s ; t                  unify
 *  match s ; t                match s onto t
 *  ...                        see the functions below
 * Every command prints exactly one line starting with "= ", unless said otherwise.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <cio_initio.h>
#include <cio_output.h>
#include <cio_scanner.h>
#include <ccl_proofstate.h>
#include <ccl_clausefunc.h>
#include <ccl_subsumption.h>
#include <ccl_pdtrees.h>
#include <ccl_condensation.h>
#include <ccl_tautologies.h>
#include <ccl_fcvindexing.h>
#include <ccl_rewrite.h>
#include <ccl_paramod.h>
#include <cte_fp_index.h>
#include <cte_match_mgu_1-1.h>
#include <cte_termpos.h>
#include <cto_orderings.h>
#include <che_to_autoselect.h>
#include <che_litselection.h>
#include <che_proofcontrol.h>
#include <che_heuristics.h>

bool app_encode = false;

static ProofState_p st;
static OCB_p ocb;

static char *trim(char *s)
{
   while(*s == ' ') s++;
   size_t n = strlen(s);
   while(n && (s[n-1] == ' ' || s[n-1] == '\n' || s[n-1] == '\r')) s[--n] = 0;
   return s;
}

static int fields(char *s, char **f, int max)
{
   int n = 0;
   s = trim(s);
   while(n < max)
   {
      f[n++] = s;
      char *e = strchr(s, ';');
      if(!e) break;
      *e = 0;
      s = e+1;
   }
   for(int i=0; i<n; i++) f[i] = trim(f[i]);
   return n;
}

static int nvars = 12;

static void names(void)
{  /* X1..Xn always mean the variables that are printed like this */
   VarBankClearExtNames(st->terms->vars);
   for(int i=1; i<=nvars; i++)
   {
      char b[16];
      sprintf(b, "X%d", i);
      (void)VarBankExtNameAssertAlloc(st->terms->vars, b);
   }
}

static Term_p term(char *s)
{
   names();
   Scanner_p in = CreateScanner(StreamTypeUserString, s, true, NULL, true);
   ScannerSetFormat(in, TSTPFormat);
   Term_p t = TBTermParse(in, st->terms);
   DestroyScanner(in);
   return t;
}

static Clause_p clause(char *s)
{
   Scanner_p in = CreateScanner(StreamTypeUserString, s, true, NULL, true);
   ScannerSetFormat(in, TSTPFormat);
   Clause_p c = ClauseParse(in, st->terms);
   DestroyScanner(in);
   return c;
}

static void pterm(Term_p t, DerefType d)
{
   TermPrint(stdout, t, st->signature, d);
}

static const char *rel(CompareResult r)
{
   switch(r)
   {
   case to_greater: return ">";
   case to_lesser: return "<";
   case to_equal: return "=";
   case to_uncomparable: return "#";
   default: return "?";
   }
}

static void cmd_ocb(char *a)
{
   char *f[16];
   int n = fields(a, f, 16);
   OrderParmsCell p;
   if(n < 7) { printf("= bad\n"); return; }
   OrderParmsInitialize(&p);
   p.ordertype = NoOrdering;
   for(int i=0; TONames[i] && i<EMPTY; i++) if(!strcmp(TONames[i], f[0])) p.ordertype = i;
   p.to_prec_gen = TOTranslatePrecGenMethod(f[1]);
   p.to_weight_gen = TOTranslateWeightGenMethod(f[2]);
   p.to_const_weight = atol(f[3]);
   p.to_defs_min = strchr(f[6], 'd') != NULL;
   p.force_kbo_var_weight = strchr(f[6], 'v') != NULL;
   for(char *c = f[6]; *c; c++)
   {  /* modifiers: xAB with x in cabsp */
      if(*c == 'C') { p.conj_only_mod = c[1]-'0'; }
      if(*c == 'B') { p.conj_axiom_mod = c[1]-'0'; }
      if(*c == 'A') { p.axiom_only_mod = c[1]-'0'; }
      if(*c == 'S') { p.skolem_mod = c[1]-'0'; }
      if(*c == 'P') { p.defpred_mod = c[1]-'0'; }
   }
   p.lit_cmp = LCNormal;
   if(strchr(f[6], 'x')) p.lit_cmp = LCTFOEqMax;
   if(strchr(f[6], 'n')) p.lit_cmp = LCTFOEqMin;
   p.ho_order_kind = LFHO_ORDER;
   if(ocb) { OCBFree(ocb); ocb = NULL; }
   ocb = TOCreateOrdering(st, &p, f[4][0] ? f[4] : NULL, f[5][0] ? f[5] : NULL);
   printf("= varweight %ld", ocb->var_weight);
   Sig_p sig = st->signature;
   for(FunCode i=1; i<=sig->f_count; i++)
   {
      if(i > sig->internal_symbols || i == SIG_TRUE_CODE)
      {
         printf(" | %s %d %ld %d %ld ", SigFindName(sig, i), SigFindArity(sig, i), ocb->weights ? OCBFunWeight(ocb, i) : 1, SigIsPredicate(sig, i), i);
         for(FunCode j=1; j<=sig->f_count; j++)
         {
            if(j > sig->internal_symbols || j == SIG_TRUE_CODE) printf("%s", rel(OCBFunCompare(ocb, i, j)));
         }
      }
   }
   printf("\n");
}

static void cmd_cmp(char *a, bool subst)
{
   char *f[40];
   int n = fields(a, f, 40);
   Term_p s = term(f[0]), t = term(f[1]);
   DerefType d = DEREF_NEVER;
   Subst_p sub = SubstAlloc();
   if(subst)
   {
      d = DEREF_ALWAYS;
      for(int i=2; i+1<n; i+=2)
      {
         Term_p x = term(f[i]), u = term(f[i+1]);
         SubstAddBinding(sub, x, u);
      }
   }
   CompareResult r = TOCompare(ocb, s, t, d, d), r2 = TOCompare(ocb, t, s, d, d);
   bool g = TOGreater(ocb, s, t, d, d), l = TOGreater(ocb, t, s, d, d);
   printf("= %s %s %d %d\n", rel(r), rel(r2), g, l);
   SubstDelete(sub);
}

static void psubst(Subst_p s)
{
   for(PStackPointer i=0; i<PStackGetSP(s); i++)
   {
      Term_p v = PStackElementP(s, i);
      printf(" ; ");
      pterm(v, DEREF_NEVER);
      printf(" ; ");
      pterm(v->binding, DEREF_NEVER);
   }
}

static void cmd_unify(char *a, bool match)
{
   char *f[4];
   fields(a, f, 2);
   Term_p s = term(f[0]), t = term(f[1]);
   Subst_p sub = SubstAlloc();
   bool r = match ? SubstComputeMatch(s, t, sub) : SubstComputeMgu(s, t, sub);
   printf("= %d", r);
   psubst(sub);
   if(r)
   {
      printf(" : ");
      pterm(s, match ? DEREF_ONCE : DEREF_ALWAYS);
      printf(" ; ");
      pterm(t, match ? DEREF_NEVER : DEREF_ALWAYS);
      if(!match)
      {
         Term_p x = TBInsert(st->terms, s, DEREF_ALWAYS), y = TBInsert(st->terms, t, DEREF_ALWAYS);
         printf(" ; %d", x == y);
      }
   }
   SubstDelete(sub);
   printf(" : ");
   pterm(s, DEREF_ALWAYS);
   printf(" ; ");
   pterm(t, DEREF_ALWAYS);
   printf("\n");
}

/* --------------------------------------------------------------------- indices over terms */

static FPIndex_p fpi;
static PStack_p fpterms;

static void leaf_free(void *x)
{
   PObjTree_p t = x;
   PObjTreeFree(t, DummyObjDelFun);
}

static void cmd_fp(char *a)
{
   char op = a[0];
   char *arg = trim(a+1);
   if(op == 'n')
   {
      fpi = FPIndexAlloc(GetFPIndexFunction(arg), st->signature, (FPTreeFreeFun)leaf_free);
      fpterms = PStackAlloc();
      printf("= ok\n");
   }
   else if(op == 'i')
   {
      Term_p t = term(arg);
      FPTree_p leaf = FPIndexInsert(fpi, t);
      PTreeObjStore(&(leaf->payload), t, PCmpFun);
      printf("= ok\n");
   }
   else if(op == 'd')
   {
      Term_p t = term(arg);
      FPTree_p leaf = FPIndexFind(fpi, t);
      int found = 0;
      if(leaf)
      {
         found = PTreeObjExtractObject(&(leaf->payload), t, PCmpFun) != NULL;
         if(!leaf->payload) FPIndexDelete(fpi, t);
      }
      printf("= %d\n", found);
   }
   else
   {  /* u: unifiable, m: matchable (indexed terms that are instances) */
      Term_p t = term(arg);
      PStack_p c = PStackAlloc();
      if(op == 'u') FPIndexFindUnifiable(fpi, t, c); else FPIndexFindMatchable(fpi, t, c);
      printf("=");
      for(PStackPointer i=0; i<PStackGetSP(c); i++)
      {
         PObjTree_p leaf = PStackElementP(c, i);
         if(!leaf) continue;
         PStack_p it = PTreeTraverseInit(leaf);
         PObjTree_p n;
         while((n = PTreeTraverseNext(it)))
         {
            printf(" ; ");
            pterm(n->key, DEREF_NEVER);
         }
         PTreeTraverseExit(it);
      }
      printf("\n");
      PStackFree(c);
   }
}

/* --------------------------------------------------------------------- clause sets */

#define MAXC 4000
static Clause_p cl[MAXC];
static int ncl;

static void prep(Clause_p c)
{
   c->weight = ClauseStandardWeight(c);
   ClauseSubsumeOrderSortLits(c);
}

static void cmd_pdt(char *a)
{
   static PDTree_p tree;
   static ClauseSet_p set;
   char op = a[0];
   char *arg = trim(a+1);
   if(op == 'n')
   {
      set = ClauseSetAlloc();
      tree = PDTreeAlloc(st->terms);
      set->demod_index = tree;
      printf("= ok\n");
   }
   else if(op == 'i')
   {  /* unit clause: both sides of an unoriented equation, the left side of an oriented one */
      Clause_p c = clause(arg);
      ClauseOrientLiterals(ocb, c);
      prep(c);
      cl[ncl++] = c;
      ClauseSetIndexedInsertClause(set, c);
      printf("= %d %d ", ncl-1, EqnIsOriented(c->literals));
      pterm(c->literals->lterm, DEREF_NEVER);
      printf(" ; ");
      pterm(c->literals->rterm, DEREF_NEVER);
      printf("\n");
   }
   else if(op == 'd')
   {
      Clause_p c = cl[atoi(arg)];
      ClauseSetExtractEntry(c);
      printf("= ok\n");
   }
   else
   {  /* all matching sides of equations that are not newer than any date */
      Term_p t = term(arg);
      Subst_p sub = SubstAlloc();
      ClausePos_p p;
      t->weight = TermStandardWeight(t);
      PDTreeSearchInit(tree, t, PDTREE_IGNORE_NF_DATE, false);
      printf("=");
      while((p = PDTreeFindNextDemodulator(tree, sub)))
      {
         int id = -1;
         for(int i=0; i<ncl; i++) if(cl[i] == p->clause) id = i;
         printf(" ; %d %c ", id, p->side == LeftSide ? 'L' : 'R');
         pterm(ClausePosGetSide(p), DEREF_ONCE);
      }
      PDTreeSearchExit(tree);
      SubstDelete(sub);
      printf("\n");
   }
}

static void pclause(Clause_p c)
{
   ClausePrint(stdout, c, true);
}

static void cmd_subs(char *a)
{
   char *f[4];
   fields(a, f, 2);
   Clause_p c = clause(f[0]), d = clause(f[1]);
   prep(c);
   prep(d);
   printf("= %d\n", ClauseSubsumesClause(c, d));
   ClauseFree(c);
   ClauseFree(d);
}

static void cmd_condense(char *a)
{
   Clause_p c = clause(a);
   c->weight = ClauseStandardWeight(c);
   bool r = Condense(c);
   printf("= %d ", r);
   pclause(c);
   printf("\n");
   ClauseFree(c);
}

static void cmd_taut(char *a)
{
   Clause_p c = clause(a);
   TB_p work = st->tmp_terms;
   work->sig = st->signature;
   bool triv = ClauseIsTautology(work, c);
   printf("= %d\n", triv);
   ClauseFree(c);
}

static void cmd_maxlit(char *a)
{
   char *f[3];
   int n = fields(a, f, 2);
   Clause_p c = clause(f[0]);
   (void)n;
   ClauseOrientLiterals(ocb, c);
   ClauseMarkMaximalTerms(ocb, c);
   printf("=");
   for(Eqn_p l=c->literals; l; l=l->next)
   {
      printf(" ; %d%d%d%d ", EqnIsPositive(l), EqnIsOriented(l), EqnIsMaximal(l), EqnIsStrictlyMaximal(l));
      pterm(l->lterm, DEREF_NEVER);
      printf(" @ ");
      pterm(l->rterm, DEREF_NEVER);
   }
   printf("\n");
   ClauseFree(c);
}

static void cmd_select(char *a)
{  /* function ; clause */
   char *f[3];
   fields(a, f, 2);
   LiteralSelectionFun fun = GetLitSelFun(f[0]);
   Clause_p c = clause(f[1]);
   ClauseOrientLiterals(ocb, c);
   ClauseMarkMaximalTerms(ocb, c);
   ClauseDelProp(c, CPIsOriented);
   c->weight = ClauseStandardWeight(c);
   /* as in DoLiteralSelection() */
   EqnListDelProp(c->literals, EPIsSelected);
   ProofControl_p pc = ProofControlAlloc();
   pc->ocb = ocb;
   pc->heuristic_parms.selection_strategy = fun;
   DoLiteralSelection(pc, c);
   printf("=");
   for(Eqn_p l=c->literals; l; l=l->next)
   {
      printf(" ; %d%d%d ", EqnIsPositive(l), EqnIsSelected(l), EqnIsMaximal(l));
      pterm(l->lterm, DEREF_NEVER);
      printf(" @ ");
      pterm(l->rterm, DEREF_NEVER);
   }
   printf("\n");
   pc->ocb = NULL;
   ClauseFree(c);
}

/* clause sets with a feature vector index */
static int cid(Clause_p c)
{
   for(int i=0; i<ncl; i++) if(cl[i] == c) return i;
   return -1;
}

static void cmd_fvi(char *a)
{
   static ClauseSet_p set;
   char op = a[0];
   char *arg = trim(a+1);
   if(op == 'n')
   {  /* type symbols eliminate-uninformative */
      int type = 0, elim = 0;
      long sy = 32;
      FVCollect_p cs;
      sscanf(arg, "%d %ld %d", &type, &sy, &elim);
      set = ClauseSetAlloc();
      switch(type)
      {
      case 0: printf("= ok\n"); return;
      case 1: cs = BillFeaturesCollectAlloc(st->signature, sy*2+2); break;
      case 2: cs = BillPlusFeaturesCollectAlloc(st->signature, sy*2+4); break;
      case 3: cs = FVCollectAlloc(FVICollectFeatures, true, 0, sy*2+2, 2, 0, sy, sy+2, 0, sy, 0, 0, 0, 0, 0, 0); break;
      case 4: cs = FVCollectAlloc(FVICollectFeatures, true, 0, sy*2+2, 2, 0, 2*sy, 2, 2+sy, 2*sy, 0, 0, 0, 0, 0, 0); break;
      case 5: cs = FVCollectAlloc(FVICollectFeatures, true, 0, sy*4+2, 2, 0, sy, sy+2, 0, sy, 2*sy+2, 0, sy, 3*sy+2, 0, sy); break;
      default: cs = FVCollectAlloc(type == 6 ? FVIACFeatures : type == 7 ? FVISSFeatures : FVIAllFeatures,
                                   0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0); break;
      }
      cs->max_symbols = sy;
      set->fvindex = FVIAnchorAlloc(cs, PermVectorCompute(st->axioms, cs, elim));
      printf("= ok\n");
      return;
   }
   if(op == 'd')
   {
      ClauseSetExtractEntry(cl[atoi(arg)]);
      printf("= ok\n");
      return;
   }
   Clause_p c = clause(arg);
   if(ocb) ClauseOrientLiterals(ocb, c);
   prep(c);
   if(op == 'i')
   {
      cl[ncl++] = c;
      ClauseSetIndexedInsertClause(set, c);
      printf("= %d\n", ncl-1);
      return;
   }
   FVPackedClause_p pc = FVIndexPackClause(c, set->fvindex);
   if(op == 'f')
   {
      Clause_p r = ClauseSetSubsumesFVPackedClause(set, pc);
      int naive = 0;
      for(Clause_p h = set->anchor->succ; h != set->anchor; h = h->succ) naive |= ClauseSubsumesClause(h, c);
      printf("= %d %d\n", r ? cid(r) : -1, naive);
   }
   else if(op == 'b')
   {
      PStack_p res = PStackAlloc();
      ClauseSetFindFVSubsumedClauses(set, pc, res);
      printf("=");
      while(!PStackEmpty(res)) printf(" %d", cid(PStackPopP(res)));
      printf(" :");
      for(Clause_p h = set->anchor->succ; h != set->anchor; h = h->succ) if(ClauseSubsumesClause(c, h)) printf(" %d", cid(h));
      printf("\n");
      PStackFree(res);
   }
   else if(op == 'v' && set->fvindex)
   {
      Clause_p r = ClauseSetFindFVVariantClause(set, pc);
      int naive = 0;
      for(Clause_p h = set->anchor->succ; h != set->anchor; h = h->succ) naive |= ClauseSubsumesClause(h, c) && ClauseSubsumesClause(c, h);
      printf("= %d %d\n", r ? cid(r) : -1, naive);
   }
   FVUnpackClause(pc);
   ClauseFree(c);
}

static char line[1<<20];

int main(int argc, char **argv)
{
   InitIO("drv");
   setvbuf(stdout, NULL, _IOLBF, 1<<16);
   OutputFormat = TSTPFormat;
   EqnUseInfix = true;
   st = ProofStateAlloc(FPIgnoreProps);
   while(fgets(line, sizeof line, stdin))
   {
      char *a = strchr(line, ' ');
      if(!a) { continue; }
      *a++ = 0;
      a = trim(a);
      if(!strcmp(line, "P"))
      {
         Clause_p c = clause(a);
         ClauseSetInsert(st->axioms, c);
      }
      else if(!strcmp(line, "T")) { (void)term(a); }
      else if(!strcmp(line, "vars")) nvars = atoi(a);
      else if(!strcmp(line, "ocb")) cmd_ocb(a);
      else if(!strcmp(line, "cmp")) cmd_cmp(a, false);
      else if(!strcmp(line, "cmps")) cmd_cmp(a, true);
      else if(!strcmp(line, "mgu")) cmd_unify(a, false);
      else if(!strcmp(line, "match")) cmd_unify(a, true);
      else if(!strcmp(line, "fp")) cmd_fp(a);
      else if(!strcmp(line, "pdt")) cmd_pdt(a);
      else if(!strcmp(line, "subs")) cmd_subs(a);
      else if(!strcmp(line, "cond")) cmd_condense(a);
      else if(!strcmp(line, "taut")) cmd_taut(a);
      else if(!strcmp(line, "max")) cmd_maxlit(a);
      else if(!strcmp(line, "sel")) cmd_select(a);
      else if(!strcmp(line, "fvi")) cmd_fvi(a);
      else { printf("= unknown command %s\n", line); }
   }
   fflush(stdout);
   return 0;
}
