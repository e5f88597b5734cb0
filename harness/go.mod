module verifharness

go 1.22.4

require github.com/jschaf/bibtex v0.0.0

replace github.com/jschaf/bibtex => /repo
