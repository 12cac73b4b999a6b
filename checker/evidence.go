package main

import (
	"os"
	"strconv"
	"time"
)

func evidenceDoc(r *Report, cov map[string]interface{}, assume []string, nviol int) map[string]interface{} {
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	return map[string]interface{}{
		"property":    r.id,
		"tier":        r.tier,
		"seed":        seed,
		"level":       "other",
		"coverage":    cov,
		"assumptions": assume,
		"wall_s":      time.Since(r.start).Seconds(),
	}
}
