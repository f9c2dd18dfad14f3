module github.com/mmcloughlin/profile
