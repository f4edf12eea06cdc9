module a.tap

go 1.25
