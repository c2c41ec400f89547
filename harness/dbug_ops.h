/* Included twice: with and without MODULE. OPS: name of the function; PRE: what is put before messages. */
int OPS(int op, char *out, char *err)
{
    (void)out; (void)err;
    switch (op) {
    case 0: DBUG("plain\n"); P("%splain\n", PRE); break;
    case 1: DBUG("%d %s %c %5.2f %%", 42, "str", 'x', 1.5); P("%s%d %s %c %5.2f %%", PRE, 42, "str", 'x', 1.5); break;
    case 2: DBUG("%s", big); P("%s%s", PRE, big); break;
    case 3: DBUG("%s%ld", "", (long)evaluate(1)); P("%s1", PRE); touched_(1); break;
    case 4: DBUG_ASSERT(evaluate(1), "no %d", 1); touched_(1); break;
    case 5: DBUG_ASSERT(evaluate(2) == 2 && 1 + 1 == 2, "no"); touched_(2); break;
    case 6: DBUG_ASSERTF(evaluate(1) || evaluate(2), "%s", "no"); touched_(1); break;
    case 7: line = __LINE__; DBUG_ASSERT(evaluate(0), "zero %d of %s", 7, "seven"); touched_(0); A("zero 7 of seven"); break;
    case 8: line = __LINE__; DBUG_ASSERTF(evaluate(1) && !evaluate(2), "%s-%s", "a", "b"); touched_(1); touched_(2); A("a-b"); break;
    case 9: line = __LINE__; DBUG_ASSERT(1 > 2, "100%%"); A("100%"); break;
    case 10: if (line) DBUG("yes"); else DBUG("no"); P("%s%s", PRE, line ? "yes" : "no"); break;
    }
    return 0;
}
