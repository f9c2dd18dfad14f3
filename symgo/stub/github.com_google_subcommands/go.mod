module github.com/google/subcommands
