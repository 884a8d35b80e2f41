package main

func init() {
	checks["C29"] = &Check{
		Rule: "dictionaries of 1..150 tables whose names have all characters MySQL allows and keeps as @ and four digits (punctuation, spaces, backticks, slashes, CJK and other scripts, text that looks like the encoding itself), partitions and subpartitions, neighbours whose names differ only in what a careless decoding confuses; each table is asked for by its name in SQL (a partition with its suffix), and redo logs are read with no filter and with names as filters; every statement has to name the table as MySQL knows it, and exactly the rows and updates asked for have to come; distinct by names; non-trivial: a name with such characters or a partition",
		Run: func(h *Harness) {
			h.Parallel("data", h.Scale(3000, 60000), func(c *Case) error {
				c.OddPct = 80
				return dictCase(c)
			})
			h.Parallel("redo", h.Scale(1500, 40000), func(c *Case) error {
				c.OddPct = 80
				return filterCase(c)
			})
		},
	}
}

// seeName counts what the names have.
func (c *Case) seeName(t *Table) {
	if t.Name != t.SQLName() {
		c.Count("partitions", 1)
	}
	for _, n := range []string{t.DB, t.SQLName()} {
		if storedName(n) == n {
			continue
		}
		c.Count("names_stored_encoded", 1)
		for _, x := range n {
			if len(storedName(string(x))) > 1 {
				c.Shape("encoded_characters", string(x))
			}
		}
	}
}
