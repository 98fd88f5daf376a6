from lib import prop, h, na

prop("P01", "Slot, epoch and time conversions agree with each other",
     "Every slot belongs to exactly one epoch, epochs are consecutive blocks of equally many slots that start at the epoch's start slot and end at its end slot, and the distances to the next epoch and since the epoch's start are exact. Slot start and end times enclose exactly the instants that map back to the slot, and later times never map to earlier slots.",
     ["inputs", "configurations"], "all slots and epochs (32 bit, below overflow of the 32-bit slot space), all times, genesis slot/time and epoch lengths in the stated ranges",
     "The unit tests check a handful of slots around one genesis configuration; off-by-one errors appear only at particular slots or non-zero genesis slots.",
     ["timeprovider.go"], [("slot/time/epoch arithmetic", "timeprovider.go: TimeProvider methods")],
     [h("H_time_now", "done"), h("H_time_epochs", "done"), h("H_time_monotone", "done"), h("H_time_slots", "genesis", "later")],
     "genesis slot < 2^20 and every slot below 2^31; slots per epoch 2^1..2^16 (chosen values), slot duration 1..255 s; times within the 32-bit slot range.",
     note="Known finding time-genesis-offset covers the two distance functions when the genesis slot is not zero.")
prop("P02", "Mana generation and decay are exact and monotone",
     "Potential mana equals the documented generation formula (per-slot generation with per-epoch decay table) for every amount and slot range and never reports a value after an overflow; decaying stored mana never increases it, is monotone in the amount, and composes across epochs up to rounding. A slot range that goes backwards is an error. The target of the rewards of an epoch decays from its initial rate while bootstrapping and is the final rate afterwards.",
     ["inputs"], "all 64-bit amounts and mana values, all slot pairs across the stated epochs",
     "Tests compare some tabulated values; the fixed-point multiplications, carries and table indices depend on all 64 bits of the amount and on the epoch distance.",
     ["mana_decay_provider.go", "mana.go"], [("fixed-point decay and generation", "mana_decay_provider.go: DecayManaBySlots/GenerateManaAndDecayBySlots")],
     [h("H_mana_decay", "done"), h("H_mana_again", "done"), h("H_mana_decay_long", "done"), h("H_mana_decay_any", "same epoch", "later epoch"), h("H_mana_generate_amounts", "done", "later"), h("H_mana_parameters", "done", "later"), h("H_mana_generate_slots", "done", "later", "backwards"), h("H_target_reward", "bootstrapping", "final")],
     "decay table of the default parameters; up to 196,610 epochs with tables of up to three entries; see the harnesses for the slot ranges; every 64-bit amount.")
