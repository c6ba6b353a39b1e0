//imports: encoding/json fmt os strconv strings testing
func vfFail(t *testing.T, key, f string, a ...interface{}) {
	t.Helper()
	s := strings.Replace(fmt.Sprintf(f, a...), "\n", "\\n", -1)
	if len(s) > 900 {
		s = s[:900] + "..."
	}
	t.Errorf("VERIF-FAIL key=%s %s", key, s)
}

func vfStat(evals, distinct int, rule string, samples []string) {
	b, _ := json.Marshal(map[string]interface{}{"evaluations": evals, "distinct": distinct, "rule": rule, "samples": samples})
	fmt.Printf("\nVERIF-STAT %s\n", b)
}

func vfSeed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

func vfThorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }
