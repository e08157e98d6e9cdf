"""What flatland.out.genshi uses of Genshi, restated for the analysis."""
