/* the data invariant of bxstr_t.  Include after VC_SRC and texts.h */
#ifndef VERIF_BXS_H
#define VERIF_BXS_H

#define TEXTMAX (1UL << 30)
/* VS: the visible characters; p: bxstr_t pointer; s: its text; V: count; n: length covered */
#define BXS_TABLES(p, s, V, n) \
    (ALL(i_, 0, V, (p)->first_char[i_] <= (p)->visible_char[i_] && (p)->visible_char[i_] < (n) && (p)->visible_char[i_] >= i_) \
    && ALL(i_, 0, V, !IS_ESC((s)[(p)->visible_char[i_]]) && (s)[(p)->visible_char[i_]] != 0) \
    && ALL(i_, 0, V, IMPLIES((p)->first_char[i_] != (p)->visible_char[i_], IS_ESC((s)[(p)->first_char[i_]]))) \
    && ALL(i_, 1, V, (p)->first_char[i_] > (p)->visible_char[i_ - 1]))
/* what lies between two visible characters starts with an ESC */
#define BXS_GAPS(p, s, V, n) \
    (ALL(i_, 1, V, IMPLIES((p)->visible_char[i_ - 1] + 1 != (p)->visible_char[i_], IS_ESC((s)[(p)->visible_char[i_ - 1] + 1]))) \
    && IMPLIES((V) > 0 && (p)->visible_char[0] > 0, IS_ESC((s)[0])) && IMPLIES((V) == 0 && (n) > 0, IS_ESC((s)[0])) \
    && IMPLIES((V) > 0 && (p)->visible_char[(V) - 1] + 1 < (n), IS_ESC((s)[(p)->visible_char[(V) - 1] + 1])))
#define VISC(p, s, i) ((s)[(p)->visible_char[i]])
#define BXS_INDENT(p, s, V) ((p)->indent <= (V) && ALL(i_, 0, (p)->indent, BLANKP(VISC(p, s, i_))) && IMPLIES((p)->indent < (V), !BLANKP(VISC(p, s, (p)->indent))))
#define BXS_TRAIL(p, s, V, t) ((t) <= (V) && ALL(i_, (V) - (t), V, BLANKP(VISC(p, s, i_))) && IMPLIES((t) < (V), !BLANKP(VISC(p, s, (V) - (t) - 1))))

/* every bxstr_t the program builds: tables as above, ending at the terminator; blanks at the ends counted, and a text that is not
 * all blank has a non-blank character at the end of each run (a text of blanks only may split them either way) */
#define BXS_ENDS(p, s, V) ((p)->indent <= (V) && (p)->trailing <= (V) - (p)->indent \
    && ALL(i_, 0, (p)->indent, BLANKP(VISC(p, s, i_))) && ALL(i_, (V) - (p)->trailing, V, BLANKP(VISC(p, s, i_))) \
    && IMPLIES((p)->indent + (p)->trailing < (V), !BLANKP(VISC(p, s, (p)->indent)) && !BLANKP(VISC(p, s, (V) - (p)->trailing - 1))))
#define BXS_OK(p, s, V, n) ((p)->num_chars == (n) && (p)->num_chars_visible == (V) && (V) <= (n) && (p)->num_chars_invisible == (n) - (V) \
    && BXS_TABLES(p, s, V, n) && BXS_GAPS(p, s, V, n) && (p)->visible_char[V] == (n) && (p)->first_char[V] == (n) && BXS_ENDS(p, s, V) \
    && (p)->num_columns <= 2 * (n) && ALL(i_, 0, (p)->num_columns, (p)->ascii[i_] != 0) && (p)->ascii[(p)->num_columns] == 0 && (s)[n] == 0 && ALL(i_, 0, n, (s)[i_] != 0))

#endif
