"""Runtime-monitoring framework for PyPortfolioOpt (see DESIGN.md)."""
