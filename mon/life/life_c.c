/* C22, C21: a whole program in C; the library initialises and finalises MPI */
#include "ExSeisDat/Flow.h"
#include "ExSeisDat/PIOL.h"

#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define NS 3
#define NT 8

int main(int argc, char** argv)
{
    char name[2][600];
    size_t i, s, lo, hi;
    int rc = 0;
    if (argc < 3) return 20;
    snprintf(name[0], sizeof name[0], "%s/a.segy", argv[2]);
    snprintf(name[1], sizeof name[1], "%s/missing.segy", argv[2]);
    PIOL_ExSeis* p = PIOL_ExSeis_new(PIOL_VERBOSITY_NONE);
    size_t rank = PIOL_ExSeis_getRank(p), np = PIOL_ExSeis_getNumRank(p);
    if (PIOL_ExSeis_max(p, rank) != np - 1) rc = 25;
    PIOL_File_WriteDirect* w = PIOL_File_WriteDirect_new(p, name[0]);
    PIOL_File_WriteDirect_writeText(w, "life in C");
    PIOL_File_WriteDirect_writeNs(w, NS);
    PIOL_File_WriteDirect_writeNt(w, NT);
    PIOL_File_WriteDirect_writeInc(w, 0.004);
    lo = NT * rank / np;
    hi = NT * (rank + 1) / np;
    PIOL_File_Param* prm = PIOL_File_Param_new(NULL, hi - lo);
    exseis_Trace_value* t = malloc(sizeof(exseis_Trace_value) * (NT * NS + 1));
    for (i = lo; i < hi; i++) {
        for (s = 0; s < NS; s++) t[(i - lo) * NS + s] = 10 * i + s;
        PIOL_File_setPrm_Integer(i - lo, PIOL_META_il, NT - i, prm);
        PIOL_File_setPrm_double(i - lo, PIOL_META_xSrc, NT - i, prm);
    }
    PIOL_File_WriteDirect_writeTrace(w, lo, hi - lo, t, prm);
    PIOL_File_Param_delete(prm);
    PIOL_File_WriteDirect_delete(w);
    PIOL_ExSeis_barrier(p);
    PIOL_File_ReadDirect* r = PIOL_File_ReadDirect_new(p, name[0]);
    if (!strcmp(argv[1], "c_early")) {
        /* the handle of the instance may go before the file */
        PIOL_ExSeis_delete(p);
        p = NULL;
    }
    if (PIOL_File_ReadDirect_readNt(r) != NT || PIOL_File_ReadDirect_readNs(r) != NS) rc = 21;
    if (strncmp(PIOL_File_ReadDirect_readText(r), "life in C", 9) != 0) rc = 26;
    prm = PIOL_File_Param_new(NULL, NT);
    PIOL_File_ReadDirect_readTrace(r, 0, NT, t, prm);
    for (i = 0; i < NT; i++) {
        for (s = 0; s < NS; s++)
            if (t[i * NS + s] != 10 * i + s) rc = 22;
        if (PIOL_File_getPrm_Integer(i, PIOL_META_il, prm) != (exseis_Integer)(NT - i)) rc = 23;
        if (PIOL_File_getPrm_double(i, PIOL_META_xSrc, prm) != (double)(NT - i)) rc = 24;
    }
    PIOL_File_Param_delete(prm);
    PIOL_File_ReadDirect_delete(r);
    free(t);
    if (!strcmp(argv[1], "c_latched")) {
        r = PIOL_File_ReadDirect_new(p, name[1]);
        PIOL_File_ReadDirect_delete(r);
        printf("ERRSET\n");
        fflush(stdout);
        PIOL_ExSeis_isErr(p, "the program checks");
        printf("CONTINUED\n");
    }
    else if (p != NULL)
        PIOL_ExSeis_isErr(p, NULL);
    if (p != NULL) PIOL_ExSeis_delete(p);
    if (rc == 0) printf("DONE\n");
    return rc;
}
