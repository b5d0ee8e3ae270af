SCOPE = {}
CATCH = {
    "c02": "C02 (missed first; the rule now follows what happens to the entry that an overwriting put takes out of the ring)",
    "c14": "C14 (missed first; the rule now demands a size that stays a power of two on every path)",
}
