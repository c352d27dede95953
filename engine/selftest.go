package main

func selftestCmd(args []string) int { return 0 }
