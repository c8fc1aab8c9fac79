""" Repository-specific static analyser for dessia_common. """
