#include "vp.h"
#include <u/libu.h>

static int white (char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

int vp_main (void)
{
    u_lexer_t *l = NULL;
    char m[U_TOKEN_SZ], c;
    size_t len, pos = 0, lm = 0, rm = 0, i;
    int rc;
    vp_use_allocator();
#if defined(H_LONG)
    {
        static char txt[U_TOKEN_SZ + 8];
        len = (size_t) vp_pick(U_TOKEN_SZ - 4, U_TOKEN_SZ + 6);
        vp_strn(txt, 4);
        memset(txt + 4, 'x', len - 8);
        vp_strn(txt + len - 4, 4);
        VP_ASSERT(u_lexer_new(txt, &l) == 0, "create");
        lm = (size_t) vp_pick(0, 3); rm = (size_t) vp_pick((int) len - 4, (int) len);
        for (i = 0; i < rm; ++i)
        {
            if (i == lm) u_lexer_record_lmatch(l);
            VP_ASSERT(u_lexer_next(l, &c) == 0 && c == txt[i + 1], "next yields the characters in order");
        }
        u_lexer_record_rmatch(l);
        if (rm - lm + 1 >= U_TOKEN_SZ) VP_ASSERT(u_lexer_get_match(l, m) == NULL, "an oversized match is refused");
        else
        {
            VP_ASSERT(u_lexer_get_match(l, m) == m && memcmp(m, txt + lm, rm - lm + 1) == 0 && m[rm - lm + 1] == '\0', "the match is the text between the marks");
        }
        /* error messages of any length */
        memset(txt, 'e', sizeof txt - 1); txt[sizeof txt - 1] = '\0';
        VP_ASSERT(u_lexer_seterr(l, "%s%s", txt, txt) == 0, "error text recorded");
        VP_ASSERT(strlen(u_lexer_geterr(l)) == (2 * (sizeof txt - 1) < U_LEXER_ERR_SZ ? 2 * (sizeof txt - 1) : U_LEXER_ERR_SZ - 1), "error text cut to its room");
        u_lexer_free(l);
        VP_ASSERT(vp_live == 0, "every block is released");
        return 0;
    }
#else
    char txt[LEN + 1];
    int j;
    len = vp_str(txt, LEN);
    vp_fail_at = vp_pick(-1, 1);
    if (u_lexer_new(txt, &l))
    {
        VP_ASSERT(vp_fail_at >= 0 && vp_live == 0, "creation fails only for want of memory, leaking nothing");
        return 0;
    }
    VP_ASSERT(vp_fail_at < 0 , "a failed allocation is noticed");
    for (j = 0; j < NOPS; ++j)
    {
        switch (vp_pick(0, 6))
        {
            case 0:
                c = 'Z';
                rc = u_lexer_next(l, vp_bool() ? &c : NULL);
                VP_ASSERT((rc == 0) == (pos < len), "next fails at the end of text only");
                if (rc == 0) ++pos;
                VP_ASSERT(rc ? c == 'Z' : c == txt[pos] || c == 'Z', "next yields the character after the one consumed");
                break;
            case 1:
                c = 'Z';
                rc = u_lexer_skip(l, &c);
                if (pos >= len) { VP_ASSERT(rc != 0, "skip fails at the end of text"); break; }
                ++pos;
                if (pos == len) { VP_ASSERT(rc != 0, "skip finds nothing past the last character"); break; }
                while (pos < len && white(txt[pos])) ++pos;
                VP_ASSERT(rc == 0 || pos == len, "skip finds the next visible character");
                if (rc == 0) VP_ASSERT(c == txt[pos], "skip yields the next visible character");
                break;
            case 2:
                rc = u_lexer_eat_ws(l);
                if (pos >= len) { VP_ASSERT(rc != 0, "no white space at the end of text"); break; }
                while (pos < len && white(txt[pos])) ++pos;
                VP_ASSERT(rc == 0 || pos == len, "white space eaten");
                break;
            case 3:
                c = (char) vp_u8();
                rc = u_lexer_expect_char(l, c);
                VP_ASSERT((rc == 0) == (pos < len && txt[pos] == c), "expect accepts just the character under the cursor");
                if (rc == 0) ++pos;
                else VP_ASSERT(u_lexer_geterr(l)[0] != '\0', "the failure is explained");
                break;
            case 4: u_lexer_record_lmatch(l); lm = pos; break;
            case 5: u_lexer_record_rmatch(l); rm = pos; break;
            default:
                memset(m, 'm', sizeof m);
                if (rm < lm) { VP_ASSERT(u_lexer_get_match(l, m) == NULL, "no match when its end precedes its beginning"); break; }
                VP_ASSERT(u_lexer_get_match(l, m) == m, "match");
                for (i = 0; i < rm - lm + 1 && lm + i < len; ++i)
                    VP_ASSERT(m[i] == txt[lm + i], "the match is the text between the marks, included");
                VP_ASSERT(m[i] == '\0', "the match ends there");
                break;
        }
        VP_ASSERT(u_lexer_pos(l) == pos, "position");
        VP_ASSERT(u_lexer_eot(l) == (pos >= len), "end of text");
        VP_ASSERT(u_lexer_peek(l) == txt[pos], "character under the cursor");
        VP_ASSERT(strcmp(u_lexer_lookahead(l), txt + pos) == 0, "text still to be read");
    }
    u_lexer_free(l);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
#endif
}
