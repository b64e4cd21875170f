/* the tools include the display's header without using it */
