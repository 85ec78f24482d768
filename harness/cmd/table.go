package main

// table is replaced by a generated file when the replay binary is built.
var table = map[string]func(){}
